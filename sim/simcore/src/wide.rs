//! A derived label with more values than a byte can number.
use measured::FixedCardinalityLabel;
#[derive(Clone, Copy, PartialEq, Debug, FixedCardinalityLabel)]
pub enum Wide {
    W000,
    W001,
    W002,
    #[label(rename = "w 3\\")]
    W003,
    W004,
    W005,
    W006,
    W007,
    W008,
    W009,
    #[label(rename = "w 10\\")]
    W010,
    W011,
    W012,
    W013,
    W014,
    W015,
    W016,
    #[label(rename = "w 17\\")]
    W017,
    W018,
    W019,
    W020,
    W021,
    W022,
    W023,
    #[label(rename = "w 24\\")]
    W024,
    W025,
    W026,
    W027,
    W028,
    W029,
    W030,
    #[label(rename = "w 31\\")]
    W031,
    W032,
    W033,
    W034,
    W035,
    W036,
    W037,
    #[label(rename = "w 38\\")]
    W038,
    W039,
    W040,
    W041,
    W042,
    W043,
    W044,
    #[label(rename = "w 45\\")]
    W045,
    W046,
    W047,
    W048,
    W049,
    W050,
    W051,
    #[label(rename = "w 52\\")]
    W052,
    W053,
    W054,
    W055,
    W056,
    W057,
    W058,
    #[label(rename = "w 59\\")]
    W059,
    W060,
    W061,
    W062,
    W063,
    W064,
    W065,
    #[label(rename = "w 66\\")]
    W066,
    W067,
    W068,
    W069,
    W070,
    W071,
    W072,
    #[label(rename = "w 73\\")]
    W073,
    W074,
    W075,
    W076,
    W077,
    W078,
    W079,
    #[label(rename = "w 80\\")]
    W080,
    W081,
    W082,
    W083,
    W084,
    W085,
    W086,
    #[label(rename = "w 87\\")]
    W087,
    W088,
    W089,
    W090,
    W091,
    W092,
    W093,
    #[label(rename = "w 94\\")]
    W094,
    W095,
    W096,
    W097,
    W098,
    W099,
    W100,
    #[label(rename = "w 101\\")]
    W101,
    W102,
    W103,
    W104,
    W105,
    W106,
    W107,
    #[label(rename = "w 108\\")]
    W108,
    W109,
    W110,
    W111,
    W112,
    W113,
    W114,
    #[label(rename = "w 115\\")]
    W115,
    W116,
    W117,
    W118,
    W119,
    W120,
    W121,
    #[label(rename = "w 122\\")]
    W122,
    W123,
    W124,
    W125,
    W126,
    W127,
    W128,
    #[label(rename = "w 129\\")]
    W129,
    W130,
    W131,
    W132,
    W133,
    W134,
    W135,
    #[label(rename = "w 136\\")]
    W136,
    W137,
    W138,
    W139,
    W140,
    W141,
    W142,
    #[label(rename = "w 143\\")]
    W143,
    W144,
    W145,
    W146,
    W147,
    W148,
    W149,
    #[label(rename = "w 150\\")]
    W150,
    W151,
    W152,
    W153,
    W154,
    W155,
    W156,
    #[label(rename = "w 157\\")]
    W157,
    W158,
    W159,
    W160,
    W161,
    W162,
    W163,
    #[label(rename = "w 164\\")]
    W164,
    W165,
    W166,
    W167,
    W168,
    W169,
    W170,
    #[label(rename = "w 171\\")]
    W171,
    W172,
    W173,
    W174,
    W175,
    W176,
    W177,
    #[label(rename = "w 178\\")]
    W178,
    W179,
    W180,
    W181,
    W182,
    W183,
    W184,
    #[label(rename = "w 185\\")]
    W185,
    W186,
    W187,
    W188,
    W189,
    W190,
    W191,
    #[label(rename = "w 192\\")]
    W192,
    W193,
    W194,
    W195,
    W196,
    W197,
    W198,
    #[label(rename = "w 199\\")]
    W199,
    W200,
    W201,
    W202,
    W203,
    W204,
    W205,
    #[label(rename = "w 206\\")]
    W206,
    W207,
    W208,
    W209,
    W210,
    W211,
    W212,
    #[label(rename = "w 213\\")]
    W213,
    W214,
    W215,
    W216,
    W217,
    W218,
    W219,
    #[label(rename = "w 220\\")]
    W220,
    W221,
    W222,
    W223,
    W224,
    W225,
    W226,
    #[label(rename = "w 227\\")]
    W227,
    W228,
    W229,
    W230,
    W231,
    W232,
    W233,
    #[label(rename = "w 234\\")]
    W234,
    W235,
    W236,
    W237,
    W238,
    W239,
    W240,
    #[label(rename = "w 241\\")]
    W241,
    W242,
    W243,
    W244,
    W245,
    W246,
    W247,
    #[label(rename = "w 248\\")]
    W248,
    W249,
    W250,
    W251,
    W252,
    W253,
    W254,
    #[label(rename = "w 255\\")]
    W255,
    W256,
    W257,
    W258,
    W259,
    W260,
    W261,
    #[label(rename = "w 262\\")]
    W262,
    W263,
    W264,
    W265,
    W266,
    W267,
    W268,
    #[label(rename = "w 269\\")]
    W269,
    W270,
    W271,
    W272,
    W273,
    W274,
    W275,
    #[label(rename = "w 276\\")]
    W276,
    W277,
    W278,
    W279,
    W280,
    W281,
    W282,
    #[label(rename = "w 283\\")]
    W283,
    W284,
    W285,
    W286,
    W287,
    W288,
    W289,
    #[label(rename = "w 290\\")]
    W290,
    W291,
    W292,
    W293,
    W294,
    W295,
    W296,
    #[label(rename = "w 297\\")]
    W297,
    W298,
    W299,
}
pub const N: usize = 300;
pub const WIDE: [Wide; N] = [
    Wide::W000, Wide::W001, Wide::W002, Wide::W003, Wide::W004, Wide::W005, Wide::W006, Wide::W007,
    Wide::W008, Wide::W009, Wide::W010, Wide::W011, Wide::W012, Wide::W013, Wide::W014, Wide::W015,
    Wide::W016, Wide::W017, Wide::W018, Wide::W019, Wide::W020, Wide::W021, Wide::W022, Wide::W023,
    Wide::W024, Wide::W025, Wide::W026, Wide::W027, Wide::W028, Wide::W029, Wide::W030, Wide::W031,
    Wide::W032, Wide::W033, Wide::W034, Wide::W035, Wide::W036, Wide::W037, Wide::W038, Wide::W039,
    Wide::W040, Wide::W041, Wide::W042, Wide::W043, Wide::W044, Wide::W045, Wide::W046, Wide::W047,
    Wide::W048, Wide::W049, Wide::W050, Wide::W051, Wide::W052, Wide::W053, Wide::W054, Wide::W055,
    Wide::W056, Wide::W057, Wide::W058, Wide::W059, Wide::W060, Wide::W061, Wide::W062, Wide::W063,
    Wide::W064, Wide::W065, Wide::W066, Wide::W067, Wide::W068, Wide::W069, Wide::W070, Wide::W071,
    Wide::W072, Wide::W073, Wide::W074, Wide::W075, Wide::W076, Wide::W077, Wide::W078, Wide::W079,
    Wide::W080, Wide::W081, Wide::W082, Wide::W083, Wide::W084, Wide::W085, Wide::W086, Wide::W087,
    Wide::W088, Wide::W089, Wide::W090, Wide::W091, Wide::W092, Wide::W093, Wide::W094, Wide::W095,
    Wide::W096, Wide::W097, Wide::W098, Wide::W099, Wide::W100, Wide::W101, Wide::W102, Wide::W103,
    Wide::W104, Wide::W105, Wide::W106, Wide::W107, Wide::W108, Wide::W109, Wide::W110, Wide::W111,
    Wide::W112, Wide::W113, Wide::W114, Wide::W115, Wide::W116, Wide::W117, Wide::W118, Wide::W119,
    Wide::W120, Wide::W121, Wide::W122, Wide::W123, Wide::W124, Wide::W125, Wide::W126, Wide::W127,
    Wide::W128, Wide::W129, Wide::W130, Wide::W131, Wide::W132, Wide::W133, Wide::W134, Wide::W135,
    Wide::W136, Wide::W137, Wide::W138, Wide::W139, Wide::W140, Wide::W141, Wide::W142, Wide::W143,
    Wide::W144, Wide::W145, Wide::W146, Wide::W147, Wide::W148, Wide::W149, Wide::W150, Wide::W151,
    Wide::W152, Wide::W153, Wide::W154, Wide::W155, Wide::W156, Wide::W157, Wide::W158, Wide::W159,
    Wide::W160, Wide::W161, Wide::W162, Wide::W163, Wide::W164, Wide::W165, Wide::W166, Wide::W167,
    Wide::W168, Wide::W169, Wide::W170, Wide::W171, Wide::W172, Wide::W173, Wide::W174, Wide::W175,
    Wide::W176, Wide::W177, Wide::W178, Wide::W179, Wide::W180, Wide::W181, Wide::W182, Wide::W183,
    Wide::W184, Wide::W185, Wide::W186, Wide::W187, Wide::W188, Wide::W189, Wide::W190, Wide::W191,
    Wide::W192, Wide::W193, Wide::W194, Wide::W195, Wide::W196, Wide::W197, Wide::W198, Wide::W199,
    Wide::W200, Wide::W201, Wide::W202, Wide::W203, Wide::W204, Wide::W205, Wide::W206, Wide::W207,
    Wide::W208, Wide::W209, Wide::W210, Wide::W211, Wide::W212, Wide::W213, Wide::W214, Wide::W215,
    Wide::W216, Wide::W217, Wide::W218, Wide::W219, Wide::W220, Wide::W221, Wide::W222, Wide::W223,
    Wide::W224, Wide::W225, Wide::W226, Wide::W227, Wide::W228, Wide::W229, Wide::W230, Wide::W231,
    Wide::W232, Wide::W233, Wide::W234, Wide::W235, Wide::W236, Wide::W237, Wide::W238, Wide::W239,
    Wide::W240, Wide::W241, Wide::W242, Wide::W243, Wide::W244, Wide::W245, Wide::W246, Wide::W247,
    Wide::W248, Wide::W249, Wide::W250, Wide::W251, Wide::W252, Wide::W253, Wide::W254, Wide::W255,
    Wide::W256, Wide::W257, Wide::W258, Wide::W259, Wide::W260, Wide::W261, Wide::W262, Wide::W263,
    Wide::W264, Wide::W265, Wide::W266, Wide::W267, Wide::W268, Wide::W269, Wide::W270, Wide::W271,
    Wide::W272, Wide::W273, Wide::W274, Wide::W275, Wide::W276, Wide::W277, Wide::W278, Wide::W279,
    Wide::W280, Wide::W281, Wide::W282, Wide::W283, Wide::W284, Wide::W285, Wide::W286, Wide::W287,
    Wide::W288, Wide::W289, Wide::W290, Wide::W291, Wide::W292, Wide::W293, Wide::W294, Wide::W295,
    Wide::W296, Wide::W297, Wide::W298, Wide::W299,
];
pub fn text(i: usize) -> String {
    if i % 7 == 3 {
        format!("w {i}\\")
    } else {
        format!("w{i:03}")
    }
}
