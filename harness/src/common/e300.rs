enum_key!(E300:
    V0 V7 V14 V21 V28 V35 V42 V49 V56 V63 V70 V77 V84 V91 V98
    V105 V112 V119 V126 V133 V140 V147 V154 V161 V168 V175 V182 V189 V196 V203
    V210 V217 V224 V231 V238 V245 V252 V259 V266 V273 V280 V287 V294 V1 V8
    V15 V22 V29 V36 V43 V50 V57 V64 V71 V78 V85 V92 V99 V106 V113
    V120 V127 V134 V141 V148 V155 V162 V169 V176 V183 V190 V197 V204 V211 V218
    V225 V232 V239 V246 V253 V260 V267 V274 V281 V288 V295 V2 V9 V16 V23
    V30 V37 V44 V51 V58 V65 V72 V79 V86 V93 V100 V107 V114 V121 V128
    V135 V142 V149 V156 V163 V170 V177 V184 V191 V198 V205 V212 V219 V226 V233
    V240 V247 V254 V261 V268 V275 V282 V289 V296 V3 V10 V17 V24 V31 V38
    V45 V52 V59 V66 V73 V80 V87 V94 V101 V108 V115 V122 V129 V136 V143
    V150 V157 V164 V171 V178 V185 V192 V199 V206 V213 V220 V227 V234 V241 V248
    V255 V262 V269 V276 V283 V290 V297 V4 V11 V18 V25 V32 V39 V46 V53
    V60 V67 V74 V81 V88 V95 V102 V109 V116 V123 V130 V137 V144 V151 V158
    V165 V172 V179 V186 V193 V200 V207 V214 V221 V228 V235 V242 V249 V256 V263
    V270 V277 V284 V291 V298 V5 V12 V19 V26 V33 V40 V47 V54 V61 V68
    V75 V82 V89 V96 V103 V110 V117 V124 V131 V138 V145 V152 V159 V166 V173
    V180 V187 V194 V201 V208 V215 V222 V229 V236 V243 V250 V257 V264 V271 V278
    V285 V292 V299 V6 V13 V20 V27 V34 V41 V48 V55 V62 V69 V76 V83
    V90 V97 V104 V111 V118 V125 V132 V139 V146 V153 V160 V167 V174 V181 V188
    V195 V202 V209 V216 V223 V230 V237 V244 V251 V258 V265 V272 V279 V286 V293
);
