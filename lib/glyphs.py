"""
What the documented types of marker look like, on a grid that covers the unit square (the
icons that the documentation of gsp.core.Marker refers to).
"""
GLYPHS = {
    1: [                                # point
        ".........####.........",
        "......##########......",
        ".....############.....",
        "...################...",
        "...################...",
        "..##################..",
        ".####################.",
        ".####################.",
        ".####################.",
        "######################",
        "######################",
        "######################",
        "######################",
        ".####################.",
        ".####################.",
        ".####################.",
        "..##################..",
        "...################...",
        "...################...",
        ".....############.....",
        "......##########......",
        ".........####.........",
    ],
    2: [                                # triangle
        "......................",
        "......................",
        "..........##..........",
        "..........##..........",
        ".........####.........",
        ".........####.........",
        "........######........",
        ".......########.......",
        ".......########.......",
        "......##########......",
        "......##########......",
        ".....############.....",
        "....##############....",
        "....##############....",
        "...################...",
        "...################...",
        "..##################..",
        "..##################..",
        ".####################.",
        "######################",
        "......................",
        "......................",
    ],
    3: [                                # square
        "######################",
        "######################",
        "######################",
        "######################",
        "######################",
        "######################",
        "######################",
        "######################",
        "######################",
        "######################",
        "######################",
        "######################",
        "######################",
        "######################",
        "######################",
        "######################",
        "######################",
        "######################",
        "######################",
        "######################",
        "######################",
        "######################",
    ],
    4: [                                # minus
        "......................",
        "......................",
        "......................",
        "......................",
        "......................",
        "......................",
        "......................",
        "......................",
        "######################",
        "######################",
        "######################",
        "######################",
        "######################",
        "######################",
        "......................",
        "......................",
        "......................",
        "......................",
        "......................",
        "......................",
        "......................",
        "......................",
    ],
    5: [                                # plus
        "........######........",
        "........######........",
        "........######........",
        "........######........",
        "........######........",
        "........######........",
        "........######........",
        "........######........",
        "######################",
        "######################",
        "######################",
        "######################",
        "######################",
        "######################",
        "........######........",
        "........######........",
        "........######........",
        "........######........",
        "........######........",
        "........######........",
        "........######........",
        "........######........",
    ],
    6: [                                # cross
        "......................",
        "...##............##...",
        "..####..........####..",
        ".######........######.",
        ".#######......#######.",
        "..#######....#######..",
        "...#######..#######...",
        "....##############....",
        ".....############.....",
        "......##########......",
        ".......########.......",
        ".......########.......",
        "......##########......",
        ".....############.....",
        "....##############....",
        "...#######..#######...",
        "..#######....#######..",
        ".#######......#######.",
        ".######........######.",
        "..####..........####..",
        "...##............##...",
        "......................",
    ],
    7: [                                # star
        "......................",
        "..........##..........",
        "..........##..........",
        "..........##..........",
        ".........####.........",
        ".........####.........",
        "........######........",
        ".......########.......",
        ".####################.",
        "..##################..",
        "...################...",
        "....##############....",
        ".....############.....",
        "......##########......",
        "......##########......",
        "......##########......",
        ".....############.....",
        ".....#####..#####.....",
        ".....###......###.....",
        ".....#..........#.....",
        "....#............#....",
        "......................",
    ],
    8: [                                # club
        "..........##..........",
        ".......########.......",
        ".......########.......",
        ".......########.......",
        "......##########......",
        ".......########.......",
        ".......########.......",
        ".......########.......",
        ".....############.....",
        "..##################..",
        "..##################..",
        "..##################..",
        ".####################.",
        "..##################..",
        "..##################..",
        "..##################..",
        "..##################..",
        "..........##..........",
        "..........##..........",
        ".........####.........",
        "........######........",
        "........######........",
    ],
    9: [                                # heart
        "......................",
        "......#........#......",
        "..########..########..",
        ".####################.",
        ".####################.",
        ".####################.",
        "######################",
        "######################",
        ".####################.",
        ".####################.",
        ".####################.",
        "..##################..",
        "..##################..",
        "...################...",
        "....##############....",
        ".....############.....",
        "......##########......",
        ".......########.......",
        "........######........",
        ".........####.........",
        "..........##..........",
        "......................",
    ],
    10: [                                # spade
        "......................",
        "..........##..........",
        ".........####.........",
        "........######........",
        ".......########.......",
        "......##########......",
        ".....############.....",
        ".....############.....",
        "....##############....",
        "....##############....",
        "....##############....",
        "...################...",
        "...################...",
        "...################...",
        "...################...",
        "...################...",
        "....##############....",
        "..........##..........",
        "..........###.........",
        ".........####.........",
        "........######........",
        "........######........",
    ],
    11: [                                # diamond
        "......................",
        "..........##..........",
        ".........####.........",
        ".........####.........",
        "........######........",
        ".......########.......",
        ".......########.......",
        "......##########......",
        ".....############.....",
        ".....############.....",
        "....##############....",
        "....##############....",
        ".....############.....",
        ".....############.....",
        "......##########......",
        ".......########.......",
        ".......########.......",
        "........######........",
        ".........####.........",
        ".........####.........",
        "..........##..........",
        "......................",
    ],
    12: [                                # arrow
        "......................",
        "..........##..........",
        ".........####.........",
        "........######........",
        ".......########.......",
        "......##########......",
        ".....############.....",
        "....##############....",
        "...################...",
        "..##################..",
        ".######.######.######.",
        ".#####..######..#####.",
        "..###...######...###..",
        "...#....######....#...",
        "........######........",
        "........######........",
        "........######........",
        "........######........",
        "........######........",
        "........######........",
        "........######........",
        "........######........",
    ],
}
