// characters added or cased after the Unicode version of the tables
{0x25c,0x25c},
{0x261,0x261},
{0x266,0x266},
{0x26a,0x26a},
{0x26c,0x26c},
{0x282,0x282},
{0x287,0x287},
{0x29d,0x29e},
{0x37f,0x37f},
{0x3f3,0x3f3},
{0x528,0x52f},
{0x10c7,0x10c7},
{0x10cd,0x10cd},
{0x10d0,0x10fa},
{0x10fd,0x10ff},
{0x13a0,0x13f5},
{0x13f8,0x13fd},
{0x1c80,0x1c88},
{0x1c90,0x1cba},
{0x1cbd,0x1cbf},
{0x1d8e,0x1d8e},
{0x2c2f,0x2c2f},
{0x2c5f,0x2c5f},
{0x2cf2,0x2cf3},
{0x2d27,0x2d27},
{0x2d2d,0x2d2d},
{0xa698,0xa69b},
{0xa792,0xa794},
{0xa796,0xa79f},
{0xa7aa,0xa7ae},
{0xa7b0,0xa7ca},
{0xa7d0,0xa7d1},
{0xa7d6,0xa7d9},
{0xa7f5,0xa7f6},
{0xab53,0xab53},
{0xab70,0xabbf},
{0x104b0,0x104d3},
{0x104d8,0x104fb},
{0x10570,0x1057a},
{0x1057c,0x1058a},
{0x1058c,0x10592},
{0x10594,0x10595},
{0x10597,0x105a1},
{0x105a3,0x105b1},
{0x105b3,0x105b9},
{0x105bb,0x105bc},
{0x10c80,0x10cb2},
{0x10cc0,0x10cf2},
{0x118a0,0x118df},
{0x16e40,0x16e7f},
{0x1e900,0x1e943},
