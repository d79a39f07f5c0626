// Extracted from the real code by the check (lc3native os-image): the assembled OS, and the targets of its backward branches.
pub const OS_LEN: u16 = 767;
pub const HEADS: [u16; 6] = [0x0244, 0x024A, 0x0255, 0x027F, 0x0287, 0x029F];
pub fn os(a: u16) -> u16 {
    let row: [u16; 16] = match a / 16 {
        0 => [0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200],
        1 => [0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200],
        2 => [0x0244, 0x0248, 0x0250, 0x025F, 0x0276, 0x029F, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200],
        3 => [0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200],
        4 => [0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200],
        5 => [0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200],
        6 => [0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200],
        7 => [0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200],
        8 => [0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200],
        9 => [0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200],
        10 => [0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200],
        11 => [0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200],
        12 => [0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200],
        13 => [0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200],
        14 => [0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200],
        15 => [0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200, 0x0200],
        16 => [0x02A7, 0x02C7, 0x02E2, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E],
        17 => [0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E],
        18 => [0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E],
        19 => [0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E],
        20 => [0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E],
        21 => [0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E],
        22 => [0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E],
        23 => [0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E],
        24 => [0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E],
        25 => [0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E],
        26 => [0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E],
        27 => [0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E],
        28 => [0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E],
        29 => [0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E],
        30 => [0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E],
        31 => [0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E, 0x021E],
        32 => [0xE002, 0xF022, 0xF025, 0x000A, 0x002D, 0x002D, 0x002D, 0x0020, 0x0042, 0x0061, 0x0064, 0x0020, 0x0074, 0x0072, 0x0061, 0x0070],
        33 => [0x0020, 0x0065, 0x0078, 0x0065, 0x0063, 0x0075, 0x0074, 0x0065, 0x0064, 0x0020, 0x002D, 0x002D, 0x002D, 0x0000, 0xE002, 0xF022],
        34 => [0x8000, 0x000A, 0x002D, 0x002D, 0x002D, 0x0020, 0x004D, 0x0069, 0x0073, 0x0073, 0x0069, 0x006E, 0x0067, 0x0020, 0x0069, 0x006E],
        35 => [0x0074, 0x0065, 0x0072, 0x0072, 0x0075, 0x0070, 0x0074, 0x0020, 0x0068, 0x0061, 0x006E, 0x0064, 0x006C, 0x0065, 0x0072, 0x0020],
        36 => [0x002D, 0x002D, 0x002D, 0x0000, 0xA05D, 0x07FE, 0xA05C, 0x8000, 0x1DBF, 0x7180, 0xA059, 0x07FE, 0x6180, 0x1DA1, 0xB056, 0x8000],
        37 => [0x1DBF, 0x7180, 0x1DBF, 0x7380, 0x1220, 0x6040, 0x0403, 0xF021, 0x1261, 0x0FFB, 0x6380, 0x1DA1, 0x6180, 0x1DA1, 0x8000, 0xE004],
        38 => [0xF022, 0xF020, 0xF021, 0x8000, 0x0049, 0x006E, 0x0070, 0x0075, 0x0074, 0x0020, 0x0063, 0x0068, 0x0061, 0x0072, 0x0061, 0x0063],
        39 => [0x0074, 0x0065, 0x0072, 0x003A, 0x0020, 0x0000, 0x1DBF, 0x7180, 0x1DBF, 0x7380, 0x1DBF, 0x7580, 0x1DBF, 0x7780, 0x1220, 0x6440],
        40 => [0x201D, 0x5080, 0x0412, 0xF021, 0x5020, 0x56E0, 0x16E8, 0x16E0, 0x0C07, 0x1000, 0x14A0, 0x0601, 0x1021, 0x1482, 0x16FF, 0x0FF7],
        41 => [0x1020, 0x0403, 0xF021, 0x1261, 0x0FEA, 0x6780, 0x1DA1, 0x6580, 0x1DA1, 0x6380, 0x1DA1, 0x6180, 0x1DA1, 0x8000, 0x00FF, 0x5FE0],
        42 => [0xBE05, 0x0FFD, 0xFE00, 0xFE02, 0xFE04, 0xFE06, 0xFFFE, 0xE002, 0xF022, 0xF025, 0x000A, 0x002D, 0x002D, 0x002D, 0x0020, 0x0050],
        43 => [0x0072, 0x0069, 0x0076, 0x0069, 0x006C, 0x0065, 0x0067, 0x0065, 0x0020, 0x0076, 0x0069, 0x006F, 0x006C, 0x0061, 0x0074, 0x0069],
        44 => [0x006F, 0x006E, 0x0020, 0x002D, 0x002D, 0x002D, 0x0000, 0xE002, 0xF022, 0xF025, 0x000A, 0x002D, 0x002D, 0x002D, 0x0020, 0x0049],
        45 => [0x006C, 0x006C, 0x0065, 0x0067, 0x0061, 0x006C, 0x0020, 0x006F, 0x0070, 0x0063, 0x006F, 0x0064, 0x0065, 0x0020, 0x002D, 0x002D],
        46 => [0x002D, 0x0000, 0xE002, 0xF022, 0xF025, 0x000A, 0x002D, 0x002D, 0x002D, 0x0020, 0x0041, 0x0063, 0x0063, 0x0065, 0x0073, 0x0073],
        47 => [0x0020, 0x0076, 0x0069, 0x006F, 0x006C, 0x0061, 0x0074, 0x0069, 0x006F, 0x006E, 0x0020, 0x002D, 0x002D, 0x002D, 0x0000, 0x0000],
        _ => [0; 16],
    };
    row[(a % 16) as usize]
}
