//! Lexicons of several sizes (generated: tools/mkmany.py)

pub mod m7 {
use teleparse::prelude::*;
#[derive_lexicon]
pub enum L {
    #[teleparse(terminal(T0 = "A"))]
    V0,
    #[teleparse(terminal(T1 = "B"))]
    V1,
    V2,
    #[teleparse(regex("D"), terminal(T3))]
    V3,
    #[teleparse(regex("E"))]
    V4,
    #[teleparse(terminal(T5 = "F"))]
    V5,
    #[teleparse(terminal(T6 = "G"))]
    V6,
}
pub const TAB: &[(&str, usize, bool)] = &[("A", 0, false), ("B", 1, false), ("D", 3, false), ("E", 4, true), ("F", 5, false), ("G", 6, false)];
}
pub mod m9 {
use teleparse::prelude::*;
#[derive_lexicon]
pub enum L {
    #[teleparse(regex("A"), terminal(T0))]
    V0,
    #[teleparse(regex("B"))]
    V1,
    #[teleparse(terminal(T2 = "C"))]
    V2,
    #[teleparse(terminal(T3 = "D"))]
    V3,
    V4,
    #[teleparse(regex("F"), terminal(T5))]
    V5,
    #[teleparse(regex("G"))]
    V6,
    #[teleparse(terminal(T7 = "H"))]
    V7,
    #[teleparse(terminal(T8 = "I"))]
    V8,
}
pub const TAB: &[(&str, usize, bool)] = &[("A", 0, false), ("B", 1, true), ("C", 2, false), ("D", 3, false), ("F", 5, false), ("G", 6, true), ("H", 7, false), ("I", 8, false)];
}
pub mod m17 {
use teleparse::prelude::*;
#[derive_lexicon]
pub enum L {
    #[teleparse(terminal(T0 = "A"))]
    V0,
    V1,
    #[teleparse(regex("C"), terminal(T2))]
    V2,
    #[teleparse(regex("D"))]
    V3,
    #[teleparse(terminal(T4 = "E"))]
    V4,
    #[teleparse(terminal(T5 = "F"))]
    V5,
    V6,
    #[teleparse(regex("H"), terminal(T7))]
    V7,
    #[teleparse(regex("I"))]
    V8,
    #[teleparse(terminal(T9 = "J"))]
    V9,
    #[teleparse(terminal(T10 = "K"))]
    V10,
    V11,
    #[teleparse(regex("M"), terminal(T12))]
    V12,
    #[teleparse(regex("N"))]
    V13,
    #[teleparse(terminal(T14 = "O"))]
    V14,
    #[teleparse(terminal(T15 = "P"))]
    V15,
    V16,
}
pub const TAB: &[(&str, usize, bool)] = &[("A", 0, false), ("C", 2, false), ("D", 3, true), ("E", 4, false), ("F", 5, false), ("H", 7, false), ("I", 8, true), ("J", 9, false), ("K", 10, false), ("M", 12, false), ("N", 13, true), ("O", 14, false), ("P", 15, false)];
}
pub mod m33 {
use teleparse::prelude::*;
#[derive_lexicon]
pub enum L {
    #[teleparse(regex("A"))]
    V0,
    #[teleparse(terminal(T1 = "B"))]
    V1,
    #[teleparse(terminal(T2 = "C"))]
    V2,
    V3,
    #[teleparse(regex("E"), terminal(T4))]
    V4,
    #[teleparse(regex("F"))]
    V5,
    #[teleparse(terminal(T6 = "G"))]
    V6,
    #[teleparse(terminal(T7 = "H"))]
    V7,
    V8,
    #[teleparse(regex("J"), terminal(T9))]
    V9,
    #[teleparse(regex("K"))]
    V10,
    #[teleparse(terminal(T11 = "L"))]
    V11,
    #[teleparse(terminal(T12 = "M"))]
    V12,
    V13,
    #[teleparse(regex("O"), terminal(T14))]
    V14,
    #[teleparse(regex("P"))]
    V15,
    #[teleparse(terminal(T16 = "Q"))]
    V16,
    #[teleparse(terminal(T17 = "R"))]
    V17,
    V18,
    #[teleparse(regex("T"), terminal(T19))]
    V19,
    #[teleparse(regex("U"))]
    V20,
    #[teleparse(terminal(T21 = "V"))]
    V21,
    #[teleparse(terminal(T22 = "W"))]
    V22,
    V23,
    #[teleparse(regex("Y"), terminal(T24))]
    V24,
    #[teleparse(regex("Z"))]
    V25,
    #[teleparse(terminal(T26 = "a"))]
    V26,
    #[teleparse(terminal(T27 = "b"))]
    V27,
    V28,
    #[teleparse(regex("d"), terminal(T29))]
    V29,
    #[teleparse(regex("e"))]
    V30,
    #[teleparse(terminal(T31 = "f"))]
    V31,
    #[teleparse(terminal(T32 = "g"))]
    V32,
}
pub const TAB: &[(&str, usize, bool)] = &[("A", 0, true), ("B", 1, false), ("C", 2, false), ("E", 4, false), ("F", 5, true), ("G", 6, false), ("H", 7, false), ("J", 9, false), ("K", 10, true), ("L", 11, false), ("M", 12, false), ("O", 14, false), ("P", 15, true), ("Q", 16, false), ("R", 17, false), ("T", 19, false), ("U", 20, true), ("V", 21, false), ("W", 22, false), ("Y", 24, false), ("Z", 25, true), ("a", 26, false), ("b", 27, false), ("d", 29, false), ("e", 30, true), ("f", 31, false), ("g", 32, false)];
}
pub mod m65 {
use teleparse::prelude::*;
#[derive_lexicon]
pub enum L {
    V0,
    #[teleparse(regex("B"), terminal(T1))]
    V1,
    #[teleparse(regex("C"))]
    V2,
    #[teleparse(terminal(T3 = "D"))]
    V3,
    #[teleparse(terminal(T4 = "E"))]
    V4,
    V5,
    #[teleparse(regex("G"), terminal(T6))]
    V6,
    #[teleparse(regex("H"))]
    V7,
    #[teleparse(terminal(T8 = "I"))]
    V8,
    #[teleparse(terminal(T9 = "J"))]
    V9,
    V10,
    #[teleparse(regex("L"), terminal(T11))]
    V11,
    #[teleparse(regex("M"))]
    V12,
    #[teleparse(terminal(T13 = "N"))]
    V13,
    #[teleparse(terminal(T14 = "O"))]
    V14,
    V15,
    #[teleparse(regex("Q"), terminal(T16))]
    V16,
    #[teleparse(regex("R"))]
    V17,
    #[teleparse(terminal(T18 = "S"))]
    V18,
    #[teleparse(terminal(T19 = "T"))]
    V19,
    V20,
    #[teleparse(regex("V"), terminal(T21))]
    V21,
    #[teleparse(regex("W"))]
    V22,
    #[teleparse(terminal(T23 = "X"))]
    V23,
    #[teleparse(terminal(T24 = "Y"))]
    V24,
    V25,
    #[teleparse(regex("a"), terminal(T26))]
    V26,
    #[teleparse(regex("b"))]
    V27,
    #[teleparse(terminal(T28 = "c"))]
    V28,
    #[teleparse(terminal(T29 = "d"))]
    V29,
    V30,
    #[teleparse(regex("f"), terminal(T31))]
    V31,
    #[teleparse(regex("g"))]
    V32,
    #[teleparse(terminal(T33 = "h"))]
    V33,
    #[teleparse(terminal(T34 = "i"))]
    V34,
    V35,
    #[teleparse(regex("k"), terminal(T36))]
    V36,
    #[teleparse(regex("l"))]
    V37,
    #[teleparse(terminal(T38 = "m"))]
    V38,
    #[teleparse(terminal(T39 = "n"))]
    V39,
    V40,
    #[teleparse(regex("p"), terminal(T41))]
    V41,
    #[teleparse(regex("q"))]
    V42,
    #[teleparse(terminal(T43 = "r"))]
    V43,
    #[teleparse(terminal(T44 = "s"))]
    V44,
    V45,
    #[teleparse(regex("u"), terminal(T46))]
    V46,
    #[teleparse(regex("v"))]
    V47,
    #[teleparse(terminal(T48 = "w"))]
    V48,
    #[teleparse(terminal(T49 = "x"))]
    V49,
    V50,
    #[teleparse(regex("z"), terminal(T51))]
    V51,
    #[teleparse(regex("Ĵ"))]
    V52,
    #[teleparse(terminal(T53 = "ĵ"))]
    V53,
    #[teleparse(terminal(T54 = "Ķ"))]
    V54,
    V55,
    #[teleparse(regex("ĸ"), terminal(T56))]
    V56,
    #[teleparse(regex("Ĺ"))]
    V57,
    #[teleparse(terminal(T58 = "ĺ"))]
    V58,
    #[teleparse(terminal(T59 = "Ļ"))]
    V59,
    V60,
    #[teleparse(regex("Ľ"), terminal(T61))]
    V61,
    #[teleparse(regex("ľ"))]
    V62,
    #[teleparse(terminal(T63 = "Ŀ"))]
    V63,
    #[teleparse(terminal(T64 = "ŀ"))]
    V64,
}
pub const TAB: &[(&str, usize, bool)] = &[("B", 1, false), ("C", 2, true), ("D", 3, false), ("E", 4, false), ("G", 6, false), ("H", 7, true), ("I", 8, false), ("J", 9, false), ("L", 11, false), ("M", 12, true), ("N", 13, false), ("O", 14, false), ("Q", 16, false), ("R", 17, true), ("S", 18, false), ("T", 19, false), ("V", 21, false), ("W", 22, true), ("X", 23, false), ("Y", 24, false), ("a", 26, false), ("b", 27, true), ("c", 28, false), ("d", 29, false), ("f", 31, false), ("g", 32, true), ("h", 33, false), ("i", 34, false), ("k", 36, false), ("l", 37, true), ("m", 38, false), ("n", 39, false), ("p", 41, false), ("q", 42, true), ("r", 43, false), ("s", 44, false), ("u", 46, false), ("v", 47, true), ("w", 48, false), ("x", 49, false), ("z", 51, false), ("Ĵ", 52, true), ("ĵ", 53, false), ("Ķ", 54, false), ("ĸ", 56, false), ("Ĺ", 57, true), ("ĺ", 58, false), ("Ļ", 59, false), ("Ľ", 61, false), ("ľ", 62, true), ("Ŀ", 63, false), ("ŀ", 64, false)];
}
pub mod m128 {
use teleparse::prelude::*;
#[derive_lexicon]
pub enum L {
    #[teleparse(terminal(T0 = "A"))]
    V0,
    #[teleparse(terminal(T1 = "B"))]
    V1,
    V2,
    #[teleparse(regex("D"), terminal(T3))]
    V3,
    #[teleparse(regex("E"))]
    V4,
    #[teleparse(terminal(T5 = "F"))]
    V5,
    #[teleparse(terminal(T6 = "G"))]
    V6,
    V7,
    #[teleparse(regex("I"), terminal(T8))]
    V8,
    #[teleparse(regex("J"))]
    V9,
    #[teleparse(terminal(T10 = "K"))]
    V10,
    #[teleparse(terminal(T11 = "L"))]
    V11,
    V12,
    #[teleparse(regex("N"), terminal(T13))]
    V13,
    #[teleparse(regex("O"))]
    V14,
    #[teleparse(terminal(T15 = "P"))]
    V15,
    #[teleparse(terminal(T16 = "Q"))]
    V16,
    V17,
    #[teleparse(regex("S"), terminal(T18))]
    V18,
    #[teleparse(regex("T"))]
    V19,
    #[teleparse(terminal(T20 = "U"))]
    V20,
    #[teleparse(terminal(T21 = "V"))]
    V21,
    V22,
    #[teleparse(regex("X"), terminal(T23))]
    V23,
    #[teleparse(regex("Y"))]
    V24,
    #[teleparse(terminal(T25 = "Z"))]
    V25,
    #[teleparse(terminal(T26 = "a"))]
    V26,
    V27,
    #[teleparse(regex("c"), terminal(T28))]
    V28,
    #[teleparse(regex("d"))]
    V29,
    #[teleparse(terminal(T30 = "e"))]
    V30,
    #[teleparse(terminal(T31 = "f"))]
    V31,
    V32,
    #[teleparse(regex("h"), terminal(T33))]
    V33,
    #[teleparse(regex("i"))]
    V34,
    #[teleparse(terminal(T35 = "j"))]
    V35,
    #[teleparse(terminal(T36 = "k"))]
    V36,
    V37,
    #[teleparse(regex("m"), terminal(T38))]
    V38,
    #[teleparse(regex("n"))]
    V39,
    #[teleparse(terminal(T40 = "o"))]
    V40,
    #[teleparse(terminal(T41 = "p"))]
    V41,
    V42,
    #[teleparse(regex("r"), terminal(T43))]
    V43,
    #[teleparse(regex("s"))]
    V44,
    #[teleparse(terminal(T45 = "t"))]
    V45,
    #[teleparse(terminal(T46 = "u"))]
    V46,
    V47,
    #[teleparse(regex("w"), terminal(T48))]
    V48,
    #[teleparse(regex("x"))]
    V49,
    #[teleparse(terminal(T50 = "y"))]
    V50,
    #[teleparse(terminal(T51 = "z"))]
    V51,
    V52,
    #[teleparse(regex("ĵ"), terminal(T53))]
    V53,
    #[teleparse(regex("Ķ"))]
    V54,
    #[teleparse(terminal(T55 = "ķ"))]
    V55,
    #[teleparse(terminal(T56 = "ĸ"))]
    V56,
    V57,
    #[teleparse(regex("ĺ"), terminal(T58))]
    V58,
    #[teleparse(regex("Ļ"))]
    V59,
    #[teleparse(terminal(T60 = "ļ"))]
    V60,
    #[teleparse(terminal(T61 = "Ľ"))]
    V61,
    V62,
    #[teleparse(regex("Ŀ"), terminal(T63))]
    V63,
    #[teleparse(regex("ŀ"))]
    V64,
    #[teleparse(terminal(T65 = "Ł"))]
    V65,
    #[teleparse(terminal(T66 = "ł"))]
    V66,
    V67,
    #[teleparse(regex("ń"), terminal(T68))]
    V68,
    #[teleparse(regex("Ņ"))]
    V69,
    #[teleparse(terminal(T70 = "ņ"))]
    V70,
    #[teleparse(terminal(T71 = "Ň"))]
    V71,
    V72,
    #[teleparse(regex("ŉ"), terminal(T73))]
    V73,
    #[teleparse(regex("Ŋ"))]
    V74,
    #[teleparse(terminal(T75 = "ŋ"))]
    V75,
    #[teleparse(terminal(T76 = "Ō"))]
    V76,
    V77,
    #[teleparse(regex("Ŏ"), terminal(T78))]
    V78,
    #[teleparse(regex("ŏ"))]
    V79,
    #[teleparse(terminal(T80 = "Ő"))]
    V80,
    #[teleparse(terminal(T81 = "ő"))]
    V81,
    V82,
    #[teleparse(regex("œ"), terminal(T83))]
    V83,
    #[teleparse(regex("Ŕ"))]
    V84,
    #[teleparse(terminal(T85 = "ŕ"))]
    V85,
    #[teleparse(terminal(T86 = "Ŗ"))]
    V86,
    V87,
    #[teleparse(regex("Ř"), terminal(T88))]
    V88,
    #[teleparse(regex("ř"))]
    V89,
    #[teleparse(terminal(T90 = "Ś"))]
    V90,
    #[teleparse(terminal(T91 = "ś"))]
    V91,
    V92,
    #[teleparse(regex("ŝ"), terminal(T93))]
    V93,
    #[teleparse(regex("Ş"))]
    V94,
    #[teleparse(terminal(T95 = "ş"))]
    V95,
    #[teleparse(terminal(T96 = "Š"))]
    V96,
    V97,
    #[teleparse(regex("Ţ"), terminal(T98))]
    V98,
    #[teleparse(regex("ţ"))]
    V99,
    #[teleparse(terminal(T100 = "Ť"))]
    V100,
    #[teleparse(terminal(T101 = "ť"))]
    V101,
    V102,
    #[teleparse(regex("ŧ"), terminal(T103))]
    V103,
    #[teleparse(regex("Ũ"))]
    V104,
    #[teleparse(terminal(T105 = "ũ"))]
    V105,
    #[teleparse(terminal(T106 = "Ū"))]
    V106,
    V107,
    #[teleparse(regex("Ŭ"), terminal(T108))]
    V108,
    #[teleparse(regex("ŭ"))]
    V109,
    #[teleparse(terminal(T110 = "Ů"))]
    V110,
    #[teleparse(terminal(T111 = "ů"))]
    V111,
    V112,
    #[teleparse(regex("ű"), terminal(T113))]
    V113,
    #[teleparse(regex("Ų"))]
    V114,
    #[teleparse(terminal(T115 = "ų"))]
    V115,
    #[teleparse(terminal(T116 = "Ŵ"))]
    V116,
    V117,
    #[teleparse(regex("Ŷ"), terminal(T118))]
    V118,
    #[teleparse(regex("ŷ"))]
    V119,
    #[teleparse(terminal(T120 = "Ÿ"))]
    V120,
    #[teleparse(terminal(T121 = "Ź"))]
    V121,
    V122,
    #[teleparse(regex("Ż"), terminal(T123))]
    V123,
    #[teleparse(regex("ż"))]
    V124,
    #[teleparse(terminal(T125 = "Ž"))]
    V125,
    #[teleparse(terminal(T126 = "ž"))]
    V126,
    V127,
}
pub const TAB: &[(&str, usize, bool)] = &[("A", 0, false), ("B", 1, false), ("D", 3, false), ("E", 4, true), ("F", 5, false), ("G", 6, false), ("I", 8, false), ("J", 9, true), ("K", 10, false), ("L", 11, false), ("N", 13, false), ("O", 14, true), ("P", 15, false), ("Q", 16, false), ("S", 18, false), ("T", 19, true), ("U", 20, false), ("V", 21, false), ("X", 23, false), ("Y", 24, true), ("Z", 25, false), ("a", 26, false), ("c", 28, false), ("d", 29, true), ("e", 30, false), ("f", 31, false), ("h", 33, false), ("i", 34, true), ("j", 35, false), ("k", 36, false), ("m", 38, false), ("n", 39, true), ("o", 40, false), ("p", 41, false), ("r", 43, false), ("s", 44, true), ("t", 45, false), ("u", 46, false), ("w", 48, false), ("x", 49, true), ("y", 50, false), ("z", 51, false), ("ĵ", 53, false), ("Ķ", 54, true), ("ķ", 55, false), ("ĸ", 56, false), ("ĺ", 58, false), ("Ļ", 59, true), ("ļ", 60, false), ("Ľ", 61, false), ("Ŀ", 63, false), ("ŀ", 64, true), ("Ł", 65, false), ("ł", 66, false), ("ń", 68, false), ("Ņ", 69, true), ("ņ", 70, false), ("Ň", 71, false), ("ŉ", 73, false), ("Ŋ", 74, true), ("ŋ", 75, false), ("Ō", 76, false), ("Ŏ", 78, false), ("ŏ", 79, true), ("Ő", 80, false), ("ő", 81, false), ("œ", 83, false), ("Ŕ", 84, true), ("ŕ", 85, false), ("Ŗ", 86, false), ("Ř", 88, false), ("ř", 89, true), ("Ś", 90, false), ("ś", 91, false), ("ŝ", 93, false), ("Ş", 94, true), ("ş", 95, false), ("Š", 96, false), ("Ţ", 98, false), ("ţ", 99, true), ("Ť", 100, false), ("ť", 101, false), ("ŧ", 103, false), ("Ũ", 104, true), ("ũ", 105, false), ("Ū", 106, false), ("Ŭ", 108, false), ("ŭ", 109, true), ("Ů", 110, false), ("ů", 111, false), ("ű", 113, false), ("Ų", 114, true), ("ų", 115, false), ("Ŵ", 116, false), ("Ŷ", 118, false), ("ŷ", 119, true), ("Ÿ", 120, false), ("Ź", 121, false), ("Ż", 123, false), ("ż", 124, true), ("Ž", 125, false), ("ž", 126, false)];
}
