//! Oracle tables, written by tools/gen_tables.py (see there for the sources).

/// calls `$m!{ $($pre)* ; (Name r g b) ... }` for every CSS colour with its standard value
#[macro_export]
macro_rules! css_table { ($m:ident $($pre:tt)*) => { $m! { $($pre)* ;
    (AliceBlue 240 248 255)
    (AntiqueWhite 250 235 215)
    (Aqua 0 255 255)
    (Aquamarine 127 255 212)
    (Azure 240 255 255)
    (Beige 245 245 220)
    (Bisque 255 228 196)
    (Black 0 0 0)
    (BlanchedAlmond 255 235 205)
    (Blue 0 0 255)
    (BlueViolet 138 43 226)
    (Brown 165 42 42)
    (BurlyWood 222 184 135)
    (CadetBlue 95 158 160)
    (Chartreuse 127 255 0)
    (Chocolate 210 105 30)
    (Coral 255 127 80)
    (CornflowerBlue 100 149 237)
    (Cornsilk 255 248 220)
    (Crimson 220 20 60)
    (DarkBlue 0 0 139)
    (DarkCyan 0 139 139)
    (DarkGoldenRod 184 134 11)
    (DarkGray 169 169 169)
    (DarkGrey 169 169 169)
    (DarkGreen 0 100 0)
    (DarkKhaki 189 183 107)
    (DarkMagenta 139 0 139)
    (DarkOliveGreen 85 107 47)
    (DarkOrange 255 140 0)
    (DarkOrchid 153 50 204)
    (DarkRed 139 0 0)
    (DarkSalmon 233 150 122)
    (DarkSeaGreen 143 188 143)
    (DarkSlateBlue 72 61 139)
    (DarkSlateGray 47 79 79)
    (DarkSlateGrey 47 79 79)
    (DarkTurquoise 0 206 209)
    (DarkViolet 148 0 211)
    (DeepPink 255 20 147)
    (DeepSkyBlue 0 191 255)
    (DimGray 105 105 105)
    (DimGrey 105 105 105)
    (DodgerBlue 30 144 255)
    (FireBrick 178 34 34)
    (FloralWhite 255 250 240)
    (ForestGreen 34 139 34)
    (Fuchsia 255 0 255)
    (Gainsboro 220 220 220)
    (GhostWhite 248 248 255)
    (Gold 255 215 0)
    (GoldenRod 218 165 32)
    (Gray 128 128 128)
    (Grey 128 128 128)
    (Green 0 128 0)
    (GreenYellow 173 255 47)
    (HoneyDew 240 255 240)
    (HotPink 255 105 180)
    (IndianRed 205 92 92)
    (Indigo 75 0 130)
    (Ivory 255 255 240)
    (Khaki 240 230 140)
    (Lavender 230 230 250)
    (LavenderBlush 255 240 245)
    (LawnGreen 124 252 0)
    (LemonChiffon 255 250 205)
    (LightBlue 173 216 230)
    (LightCoral 240 128 128)
    (LightCyan 224 255 255)
    (LightGoldenRodYellow 250 250 210)
    (LightGray 211 211 211)
    (LightGrey 211 211 211)
    (LightGreen 144 238 144)
    (LightPink 255 182 193)
    (LightSalmon 255 160 122)
    (LightSeaGreen 32 178 170)
    (LightSkyBlue 135 206 250)
    (LightSlateGray 119 136 153)
    (LightSlateGrey 119 136 153)
    (LightSteelBlue 176 196 222)
    (LightYellow 255 255 224)
    (Lime 0 255 0)
    (LimeGreen 50 205 50)
    (Linen 250 240 230)
    (Magenta 255 0 255)
    (Maroon 128 0 0)
    (MediumAquaMarine 102 205 170)
    (MediumBlue 0 0 205)
    (MediumOrchid 186 85 211)
    (MediumPurple 147 112 219)
    (MediumSeaGreen 60 179 113)
    (MediumSlateBlue 123 104 238)
    (MediumSpringGreen 0 250 154)
    (MediumTurquoise 72 209 204)
    (MediumVioletRed 199 21 133)
    (MidnightBlue 25 25 112)
    (MintCream 245 255 250)
    (MistyRose 255 228 225)
    (Moccasin 255 228 181)
    (NavajoWhite 255 222 173)
    (Navy 0 0 128)
    (OldLace 253 245 230)
    (Olive 128 128 0)
    (OliveDrab 107 142 35)
    (Orange 255 165 0)
    (OrangeRed 255 69 0)
    (Orchid 218 112 214)
    (PaleGoldenRod 238 232 170)
    (PaleGreen 152 251 152)
    (PaleTurquoise 175 238 238)
    (PaleVioletRed 219 112 147)
    (PapayaWhip 255 239 213)
    (PeachPuff 255 218 185)
    (Peru 205 133 63)
    (Pink 255 192 203)
    (Plum 221 160 221)
    (PowderBlue 176 224 230)
    (Purple 128 0 128)
    (RebeccaPurple 102 51 153)
    (Red 255 0 0)
    (RosyBrown 188 143 143)
    (RoyalBlue 65 105 225)
    (SaddleBrown 139 69 19)
    (Salmon 250 128 114)
    (SandyBrown 244 164 96)
    (SeaGreen 46 139 87)
    (SeaShell 255 245 238)
    (Sienna 160 82 45)
    (Silver 192 192 192)
    (SkyBlue 135 206 235)
    (SlateBlue 106 90 205)
    (SlateGray 112 128 144)
    (SlateGrey 112 128 144)
    (Snow 255 250 250)
    (SpringGreen 0 255 127)
    (SteelBlue 70 130 180)
    (Tan 210 180 140)
    (Teal 0 128 128)
    (Thistle 216 191 216)
    (Tomato 255 99 71)
    (Turquoise 64 224 208)
    (Violet 238 130 238)
    (Wheat 245 222 179)
    (White 255 255 255)
    (WhiteSmoke 245 245 245)
    (Yellow 255 255 0)
    (YellowGreen 154 205 50)
} } }

/// every xterm colour with its code
#[macro_export]
macro_rules! xterm_table { ($m:ident $($pre:tt)*) => { $m! { $($pre)* ;
    (Black 0)
    (Red 1)
    (Green 2)
    (Yellow 3)
    (Blue 4)
    (Magenta 5)
    (Cyan 6)
    (White 7)
    (BrightBlack 8)
    (BrightRed 9)
    (BrightGreen 10)
    (BrightYellow 11)
    (BrightBlue 12)
    (BrightMagenta 13)
    (BrightCyan 14)
    (BrightWhite 15)
    (Gray0 16)
    (Navy 17)
    (DarkBlue 18)
    (Blue3 19)
    (MediumBlue 20)
    (Blue1 21)
    (DarkGreen 22)
    (Teal 23)
    (DeepSkyBlue4 24)
    (DodgerBlue4 25)
    (DodgerBlue3 26)
    (DodgerBlue2 27)
    (Green4 28)
    (SpringGreen4 29)
    (Turquoise4 30)
    (DarkCyan 31)
    (DeepSkyBlue3 32)
    (DodgerBlue 33)
    (ForestGreen 34)
    (SeaGreen 35)
    (Cyan4 36)
    (LightSeaGreen 37)
    (DeepSkyBlue2 38)
    (DeepSkyBlue 39)
    (Green3 40)
    (SpringGreen3 41)
    (SpringGreen2 42)
    (Cyan3 43)
    (DarkTurquoise 44)
    (Turquoise2 45)
    (Lime 46)
    (SpringGreen1 47)
    (SpringGreen 48)
    (MediumSpringGreen 49)
    (Cyan2 50)
    (Aqua 51)
    (Firebrick4 52)
    (DarkOrchid4 53)
    (Indigo 54)
    (Purple4 55)
    (Purple3 56)
    (BlueViolet 57)
    (Olive 58)
    (Gray37 59)
    (MediumPurple4 60)
    (SlateBlue 61)
    (SlateBlue3 62)
    (RoyalBlue1 63)
    (Chartreuse4 64)
    (DarkSeaGreen4 65)
    (PaleTurquoise4 66)
    (SteelBlue 67)
    (SteelBlue3 68)
    (CornflowerBlue 69)
    (OliveDrab 70)
    (PaleGreen4 71)
    (DarkSlateGray4 72)
    (CadetBlue 73)
    (SkyBlue3 74)
    (SteelBlue1 75)
    (Chartreuse3 76)
    (MediumSeaGreen 77)
    (SeaGreen3 78)
    (MediumAquamarine 79)
    (MediumTurquoise 80)
    (LightSkyBlue 81)
    (Chartreuse2 82)
    (LimeGreen 83)
    (SeaGreen2 84)
    (SeaGreen1 85)
    (Aquamarine1 86)
    (DarkSlateGray2 87)
    (DarkRed 88)
    (DeepPink4 89)
    (DarkMagenta 90)
    (Magenta4 91)
    (DarkViolet 92)
    (Purple2 93)
    (Orange4 94)
    (LightPink4 95)
    (Plum4 96)
    (Orchid4 97)
    (MediumPurple3 98)
    (SlateBlue1 99)
    (Yellow4 100)
    (Wheat4 101)
    (Gray53 102)
    (LightSlateGray 103)
    (MediumPurple 104)
    (LightSlateBlue 105)
    (OliveDrab4 106)
    (LemonChiffon4 107)
    (DarkSeaGreen 108)
    (Gray63 109)
    (LightSkyBlue3 110)
    (SkyBlue2 111)
    (LawnGreen 112)
    (YellowGreen 113)
    (PaleGreen3 114)
    (DarkSeaGreen3 115)
    (DarkSlateGray3 116)
    (SkyBlue1 117)
    (Chartreuse 118)
    (OliveDrab2 119)
    (LightGreen 120)
    (PaleGreen1 121)
    (Aquamarine 122)
    (DarkSlateGray1 123)
    (Red4 124)
    (Maroon4 125)
    (MediumVioletRed 126)
    (Maroon3 127)
    (DarkOrchid3 128)
    (Purple 129)
    (DarkGoldenrod4 130)
    (IndianRed3 131)
    (PaleVioletRed3 132)
    (MediumOrchid3 133)
    (MediumOrchid 134)
    (DarkOrchid1 135)
    (DarkGoldenrod 136)
    (NavajoWhite4 137)
    (RosyBrown 138)
    (Grey63 139)
    (MediumPurple2 140)
    (MediumPurple1 141)
    (DarkGoldenrod3 142)
    (DarkKhaki 143)
    (NavajoWhite3 144)
    (Gray69 145)
    (LightSteelBlue3 146)
    (LightSteelBlue 147)
    (OliveDrab3 148)
    (DarkOliveGreen3 149)
    (PaleGreen2 150)
    (Honeydew3 151)
    (LightCyan3 152)
    (LightSkyBlue1 153)
    (GreenYellow 154)
    (DarkOliveGreen2 155)
    (PaleGreen 156)
    (DarkSeaGreen2 157)
    (DarkSeaGreen1 158)
    (PaleTurquoise1 159)
    (Red3 160)
    (Crimson 161)
    (DeepPink3 162)
    (VioletRed 163)
    (Magenta3 164)
    (Magenta2 165)
    (DarkOrange3 166)
    (IndianRed 167)
    (HotPink3 168)
    (HotPink2 169)
    (Orchid 170)
    (MediumOrchid1 171)
    (Orange3 172)
    (LightSalmon3 173)
    (LightPink3 174)
    (Pink3 175)
    (Plum3 176)
    (Violet 177)
    (Gold3 178)
    (LightGoldenrod3 179)
    (Tan 180)
    (MistyRose3 181)
    (Thistle3 182)
    (Plum2 183)
    (Yellow3 184)
    (Khaki3 185)
    (LightGoldenrod 186)
    (LightYellow3 187)
    (Gray84 188)
    (LightSteelBlue1 189)
    (Yellow2 190)
    (DarkOliveGreen1 191)
    (Khaki2 192)
    (PaleGoldenrod 193)
    (Honeydew2 194)
    (LightCyan 195)
    (Red1 196)
    (DeepPink2 197)
    (DeepPink 198)
    (DeepPink1 199)
    (Magenta1 200)
    (Fuchsia 201)
    (OrangeRed 202)
    (IndianRed1 203)
    (VioletRed1 204)
    (HotPink 205)
    (HotPink1 206)
    (MediumOrchid2 207)
    (DarkOrange 208)
    (Salmon1 209)
    (LightCoral 210)
    (PaleVioletRed1 211)
    (Orchid2 212)
    (Orchid1 213)
    (Orange 214)
    (SandyBrown 215)
    (LightSalmon 216)
    (LightPink1 217)
    (Pink1 218)
    (Plum1 219)
    (Gold 220)
    (Khaki 221)
    (LightGoldenrod2 222)
    (NavajoWhite 223)
    (MistyRose 224)
    (Thistle1 225)
    (Yellow1 226)
    (LightGoldenrod1 227)
    (Khaki1 228)
    (Wheat1 229)
    (Cornsilk 230)
    (Gray100 231)
    (Gray3 232)
    (Gray7 233)
    (Gray11 234)
    (Gray15 235)
    (Gray19 236)
    (Gray23 237)
    (Gray27 238)
    (Gray30 239)
    (Gray34 240)
    (Gray38 241)
    (Gray42 242)
    (Gray46 243)
    (Gray50 244)
    (Gray54 245)
    (Gray58 246)
    (Gray62 247)
    (Gray66 248)
    (Gray70 249)
    (Gray74 250)
    (Gray78 251)
    (Gray81 252)
    (Gray85 253)
    (Gray89 254)
    (Gray93 255)
} } }

/// every ANSI colour with its foreground and background code and its xterm number
#[macro_export]
macro_rules! ansi_table { ($m:ident $($pre:tt)*) => { $m! { $($pre)* ;
    (Black 30 40 0)
    (Red 31 41 1)
    (Green 32 42 2)
    (Yellow 33 43 3)
    (Blue 34 44 4)
    (Magenta 35 45 5)
    (Cyan 36 46 6)
    (White 37 47 7)
    (BrightBlack 90 100 8)
    (BrightRed 91 101 9)
    (BrightGreen 92 102 10)
    (BrightYellow 93 103 11)
    (BrightBlue 94 104 12)
    (BrightMagenta 95 105 13)
    (BrightCyan 96 106 14)
    (BrightWhite 97 107 15)
    (Default 39 49 16)
} } }
