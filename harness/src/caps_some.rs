all! {
    S1 1
    S2 2
    S3 3
    S4 4
    S5 5
    S6 6
    S7 7
    S8 8
    S9 9
    S12 12
    S15 15
    S16 16
    S17 17
    S20 20
    S23 23
    S24 24
    S25 25
    S31 31
    S32 32
    S33 33
    S63 63
    S64 64
    S65 65
    S100 100
    S127 127
    S128 128
    S129 129
    S192 192
    S200 200
    S253 253
    S254 254
    S255 255
}
