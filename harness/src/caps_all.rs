all! {
    S1 1
    S2 2
    S3 3
    S4 4
    S5 5
    S6 6
    S7 7
    S8 8
    S9 9
    S10 10
    S11 11
    S12 12
    S13 13
    S14 14
    S15 15
    S16 16
    S17 17
    S18 18
    S19 19
    S20 20
    S21 21
    S22 22
    S23 23
    S24 24
    S25 25
    S26 26
    S27 27
    S28 28
    S29 29
    S30 30
    S31 31
    S32 32
    S33 33
    S34 34
    S35 35
    S36 36
    S37 37
    S38 38
    S39 39
    S40 40
    S41 41
    S42 42
    S43 43
    S44 44
    S45 45
    S46 46
    S47 47
    S48 48
    S49 49
    S50 50
    S51 51
    S52 52
    S53 53
    S54 54
    S55 55
    S56 56
    S57 57
    S58 58
    S59 59
    S60 60
    S61 61
    S62 62
    S63 63
    S64 64
    S65 65
    S66 66
    S67 67
    S68 68
    S69 69
    S70 70
    S71 71
    S72 72
    S73 73
    S74 74
    S75 75
    S76 76
    S77 77
    S78 78
    S79 79
    S80 80
    S81 81
    S82 82
    S83 83
    S84 84
    S85 85
    S86 86
    S87 87
    S88 88
    S89 89
    S90 90
    S91 91
    S92 92
    S93 93
    S94 94
    S95 95
    S96 96
    S97 97
    S98 98
    S99 99
    S100 100
    S101 101
    S102 102
    S103 103
    S104 104
    S105 105
    S106 106
    S107 107
    S108 108
    S109 109
    S110 110
    S111 111
    S112 112
    S113 113
    S114 114
    S115 115
    S116 116
    S117 117
    S118 118
    S119 119
    S120 120
    S121 121
    S122 122
    S123 123
    S124 124
    S125 125
    S126 126
    S127 127
    S128 128
    S129 129
    S130 130
    S131 131
    S132 132
    S133 133
    S134 134
    S135 135
    S136 136
    S137 137
    S138 138
    S139 139
    S140 140
    S141 141
    S142 142
    S143 143
    S144 144
    S145 145
    S146 146
    S147 147
    S148 148
    S149 149
    S150 150
    S151 151
    S152 152
    S153 153
    S154 154
    S155 155
    S156 156
    S157 157
    S158 158
    S159 159
    S160 160
    S161 161
    S162 162
    S163 163
    S164 164
    S165 165
    S166 166
    S167 167
    S168 168
    S169 169
    S170 170
    S171 171
    S172 172
    S173 173
    S174 174
    S175 175
    S176 176
    S177 177
    S178 178
    S179 179
    S180 180
    S181 181
    S182 182
    S183 183
    S184 184
    S185 185
    S186 186
    S187 187
    S188 188
    S189 189
    S190 190
    S191 191
    S192 192
    S193 193
    S194 194
    S195 195
    S196 196
    S197 197
    S198 198
    S199 199
    S200 200
    S201 201
    S202 202
    S203 203
    S204 204
    S205 205
    S206 206
    S207 207
    S208 208
    S209 209
    S210 210
    S211 211
    S212 212
    S213 213
    S214 214
    S215 215
    S216 216
    S217 217
    S218 218
    S219 219
    S220 220
    S221 221
    S222 222
    S223 223
    S224 224
    S225 225
    S226 226
    S227 227
    S228 228
    S229 229
    S230 230
    S231 231
    S232 232
    S233 233
    S234 234
    S235 235
    S236 236
    S237 237
    S238 238
    S239 239
    S240 240
    S241 241
    S242 242
    S243 243
    S244 244
    S245 245
    S246 246
    S247 247
    S248 248
    S249 249
    S250 250
    S251 251
    S252 252
    S253 253
    S254 254
    S255 255
}
