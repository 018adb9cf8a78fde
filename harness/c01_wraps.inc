{{2147418113,1718039348,5},{4}},
{{998724481,1119412321,33},{1}},
{{1056175639,998034439,35},{3}},
{{2147418113,1718039348,10},{8}},
{{1904939714,1117342693,26},{4}},
{{1905297583,8678056,3347},{8}},
{{2147418113,1288529511,20},{12}},
{{1197225396,10827767,1423},{20}},
{{1174891961,19950191,787},{21}},
