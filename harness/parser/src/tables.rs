//! The characters of every code table and character set: tables 0, 2, 3, 4, 5 and 13 from their
//! published code page definitions, the others as the printer documents them.
pub const TABLES: &[(u8, [&str; 128])] = &[
    (0, ["\u{c7}", "\u{fc}", "\u{e9}", "\u{e2}", "\u{e4}", "\u{e0}", "\u{e5}", "\u{e7}", "\u{ea}", "\u{eb}", "\u{e8}", "\u{ef}", "\u{ee}", "\u{ec}", "\u{c4}", "\u{c5}", "\u{c9}", "\u{e6}", "\u{c6}", "\u{f4}", "\u{f6}", "\u{f2}", "\u{fb}", "\u{f9}", "\u{ff}", "\u{d6}", "\u{dc}", "\u{a2}", "\u{a3}", "\u{a5}", "\u{20a7}", "\u{192}", "\u{e1}", "\u{ed}", "\u{f3}", "\u{fa}", "\u{f1}", "\u{d1}", "\u{aa}", "\u{ba}", "\u{bf}", "\u{2310}", "\u{ac}", "\u{bd}", "\u{bc}", "\u{a1}", "\u{ab}", "\u{bb}", "\u{2591}", "\u{2592}", "\u{2593}", "\u{2502}", "\u{2524}", "\u{2561}", "\u{2562}", "\u{2556}", "\u{2555}", "\u{2563}", "\u{2551}", "\u{2557}", "\u{255d}", "\u{255c}", "\u{255b}", "\u{2510}", "\u{2514}", "\u{2534}", "\u{252c}", "\u{251c}", "\u{2500}", "\u{253c}", "\u{255e}", "\u{255f}", "\u{255a}", "\u{2554}", "\u{2569}", "\u{2566}", "\u{2560}", "\u{2550}", "\u{256c}", "\u{2567}", "\u{2568}", "\u{2564}", "\u{2565}", "\u{2559}", "\u{2558}", "\u{2552}", "\u{2553}", "\u{256b}", "\u{256a}", "\u{2518}", "\u{250c}", "\u{2588}", "\u{2584}", "\u{258c}", "\u{2590}", "\u{2580}", "\u{3b1}", "\u{df}", "\u{393}", "\u{3c0}", "\u{3a3}", "\u{3c3}", "\u{b5}", "\u{3c4}", "\u{3a6}", "\u{398}", "\u{3a9}", "\u{3b4}", "\u{221e}", "\u{3c6}", "\u{3b5}", "\u{2229}", "\u{2261}", "\u{b1}", "\u{2265}", "\u{2264}", "\u{2320}", "\u{2321}", "\u{f7}", "\u{2248}", "\u{b0}", "\u{2219}", "\u{b7}", "\u{221a}", "\u{207f}", "\u{b2}", "\u{25a0}", "\u{a0}"]),
    (1, ["\u{2581}", "\u{2582}", "\u{2583}", "\u{2584}", "\u{2585}", "\u{2586}", "\u{2587}", "\u{2588}", "\u{258f}", "\u{258e}", "\u{258d}", "\u{258c}", "\u{258b}", "\u{258a}", "\u{2589}", "\u{253c}", "\u{2534}", "\u{252c}", "\u{2524}", "\u{251c}", "\u{af}", "\u{2500}", "\u{2502}", "\u{2595}", "\u{250c}", "\u{2510}", "\u{2514}", "\u{2518}", "\u{256d}", "\u{256e}", "\u{2570}", "\u{256f}", " ", "\u{ff61}", "\u{ff62}", "\u{ff63}", "\u{ff64}", "\u{ff65}", "\u{ff66}", "\u{ff67}", "\u{ff68}", "\u{ff69}", "\u{ff6a}", "\u{ff6b}", "\u{ff6c}", "\u{ff6d}", "\u{ff6e}", "\u{ff6f}", "\u{ff70}", "\u{ff71}", "\u{ff72}", "\u{ff73}", "\u{ff74}", "\u{ff75}", "\u{ff76}", "\u{ff77}", "\u{ff78}", "\u{ff79}", "\u{ff7a}", "\u{ff7b}", "\u{ff7c}", "\u{ff7d}", "\u{ff7e}", "\u{ff7f}", "\u{ff80}", "\u{ff81}", "\u{ff82}", "\u{ff83}", "\u{ff84}", "\u{ff85}", "\u{ff86}", "\u{ff87}", "\u{ff88}", "\u{ff89}", "\u{ff8a}", "\u{ff8b}", "\u{ff8c}", "\u{ff8d}", "\u{ff8e}", "\u{ff8f}", "\u{ff90}", "\u{ff91}", "\u{ff92}", "\u{ff93}", "\u{ff94}", "\u{ff95}", "\u{ff96}", "\u{ff97}", "\u{ff98}", "\u{ff99}", "\u{ff9a}", "\u{ff9b}", "\u{ff9c}", "\u{ff9d}", "\u{ff9e}", "\u{ff9f}", "\u{2550}", "\u{255e}", "\u{256a}", "\u{2561}", "\u{25e2}", "\u{25e3}", "\u{25e5}", "\u{25e4}", "\u{2660}", "\u{2665}", "\u{2666}", "\u{2663}", "\u{25cf}", "\u{25cb}", "\u{2571}", "\u{2572}", "\u{2573}", "\u{5186}", "\u{5e74}", "\u{6708}", "\u{65e5}", "\u{6642}", "\u{5206}", "\u{79d2}", "\u{3012}", "\u{5e02}", "\u{533a}", "\u{753a}", "\u{6751}", "\u{4eba}", "\u{2593}", "\u{a0}"]),
    (2, ["\u{c7}", "\u{fc}", "\u{e9}", "\u{e2}", "\u{e4}", "\u{e0}", "\u{e5}", "\u{e7}", "\u{ea}", "\u{eb}", "\u{e8}", "\u{ef}", "\u{ee}", "\u{ec}", "\u{c4}", "\u{c5}", "\u{c9}", "\u{e6}", "\u{c6}", "\u{f4}", "\u{f6}", "\u{f2}", "\u{fb}", "\u{f9}", "\u{ff}", "\u{d6}", "\u{dc}", "\u{f8}", "\u{a3}", "\u{d8}", "\u{d7}", "\u{192}", "\u{e1}", "\u{ed}", "\u{f3}", "\u{fa}", "\u{f1}", "\u{d1}", "\u{aa}", "\u{ba}", "\u{bf}", "\u{ae}", "\u{ac}", "\u{bd}", "\u{bc}", "\u{a1}", "\u{ab}", "\u{bb}", "\u{2591}", "\u{2592}", "\u{2593}", "\u{2502}", "\u{2524}", "\u{c1}", "\u{c2}", "\u{c0}", "\u{a9}", "\u{2563}", "\u{2551}", "\u{2557}", "\u{255d}", "\u{a2}", "\u{a5}", "\u{2510}", "\u{2514}", "\u{2534}", "\u{252c}", "\u{251c}", "\u{2500}", "\u{253c}", "\u{e3}", "\u{c3}", "\u{255a}", "\u{2554}", "\u{2569}", "\u{2566}", "\u{2560}", "\u{2550}", "\u{256c}", "\u{a4}", "\u{f0}", "\u{d0}", "\u{ca}", "\u{cb}", "\u{c8}", "\u{131}", "\u{cd}", "\u{ce}", "\u{cf}", "\u{2518}", "\u{250c}", "\u{2588}", "\u{2584}", "\u{a6}", "\u{cc}", "\u{2580}", "\u{d3}", "\u{df}", "\u{d4}", "\u{d2}", "\u{f5}", "\u{d5}", "\u{b5}", "\u{fe}", "\u{de}", "\u{da}", "\u{db}", "\u{d9}", "\u{fd}", "\u{dd}", "\u{af}", "\u{b4}", "-", "\u{b1}", "\u{2017}", "\u{be}", "\u{b6}", "\u{a7}", "\u{f7}", "\u{b8}", "\u{b0}", "\u{a8}", "\u{b7}", "\u{b9}", "\u{b3}", "\u{b2}", "\u{25a0}", "\u{a0}"]),
    (3, ["\u{c7}", "\u{fc}", "\u{e9}", "\u{e2}", "\u{e3}", "\u{e0}", "\u{c1}", "\u{e7}", "\u{ea}", "\u{ca}", "\u{e8}", "\u{cd}", "\u{d4}", "\u{ec}", "\u{c3}", "\u{c2}", "\u{c9}", "\u{c0}", "\u{c8}", "\u{f4}", "\u{f5}", "\u{f2}", "\u{da}", "\u{f9}", "\u{cc}", "\u{d5}", "\u{dc}", "\u{a2}", "\u{a3}", "\u{d9}", "\u{20a7}", "\u{d3}", "\u{e1}", "\u{ed}", "\u{f3}", "\u{fa}", "\u{f1}", "\u{d1}", "\u{aa}", "\u{ba}", "\u{bf}", "\u{d2}", "\u{ac}", "\u{bd}", "\u{bc}", "\u{a1}", "\u{ab}", "\u{bb}", "\u{2591}", "\u{2592}", "\u{2593}", "\u{2502}", "\u{2524}", "\u{2561}", "\u{2562}", "\u{2556}", "\u{2555}", "\u{2563}", "\u{2551}", "\u{2557}", "\u{255d}", "\u{255c}", "\u{255b}", "\u{2510}", "\u{2514}", "\u{2534}", "\u{252c}", "\u{251c}", "\u{2500}", "\u{253c}", "\u{255e}", "\u{255f}", "\u{255a}", "\u{2554}", "\u{2569}", "\u{2566}", "\u{2560}", "\u{2550}", "\u{256c}", "\u{2567}", "\u{2568}", "\u{2564}", "\u{2565}", "\u{2559}", "\u{2558}", "\u{2552}", "\u{2553}", "\u{256b}", "\u{256a}", "\u{2518}", "\u{250c}", "\u{2588}", "\u{2584}", "\u{258c}", "\u{2590}", "\u{2580}", "\u{3b1}", "\u{df}", "\u{393}", "\u{3c0}", "\u{3a3}", "\u{3c3}", "\u{b5}", "\u{3c4}", "\u{3a6}", "\u{398}", "\u{3a9}", "\u{3b4}", "\u{221e}", "\u{3c6}", "\u{3b5}", "\u{2229}", "\u{2261}", "\u{b1}", "\u{2265}", "\u{2264}", "\u{2320}", "\u{2321}", "\u{f7}", "\u{2248}", "\u{b0}", "\u{2219}", "\u{b7}", "\u{221a}", "\u{207f}", "\u{b2}", "\u{25a0}", "\u{a0}"]),
    (4, ["\u{c7}", "\u{fc}", "\u{e9}", "\u{e2}", "\u{c2}", "\u{e0}", "\u{b6}", "\u{e7}", "\u{ea}", "\u{eb}", "\u{e8}", "\u{ef}", "\u{ee}", "\u{2017}", "\u{c0}", "\u{a7}", "\u{c9}", "\u{c8}", "\u{ca}", "\u{f4}", "\u{cb}", "\u{cf}", "\u{fb}", "\u{f9}", "\u{a4}", "\u{d4}", "\u{dc}", "\u{a2}", "\u{a3}", "\u{d9}", "\u{db}", "\u{192}", "\u{a6}", "\u{b4}", "\u{f3}", "\u{fa}", "\u{a8}", "\u{b8}", "\u{b3}", "\u{af}", "\u{ce}", "\u{2310}", "\u{ac}", "\u{bd}", "\u{bc}", "\u{be}", "\u{ab}", "\u{bb}", "\u{2591}", "\u{2592}", "\u{2593}", "\u{2502}", "\u{2524}", "\u{2561}", "\u{2562}", "\u{2556}", "\u{2555}", "\u{2563}", "\u{2551}", "\u{2557}", "\u{255d}", "\u{255c}", "\u{255b}", "\u{2510}", "\u{2514}", "\u{2534}", "\u{252c}", "\u{251c}", "\u{2500}", "\u{253c}", "\u{255e}", "\u{255f}", "\u{255a}", "\u{2554}", "\u{2569}", "\u{2566}", "\u{2560}", "\u{2550}", "\u{256c}", "\u{2567}", "\u{2568}", "\u{2564}", "\u{2565}", "\u{2559}", "\u{2558}", "\u{2552}", "\u{2553}", "\u{256b}", "\u{256a}", "\u{2518}", "\u{250c}", "\u{2588}", "\u{2584}", "\u{258c}", "\u{2590}", "\u{2580}", "\u{3b1}", "\u{df}", "\u{393}", "\u{3c0}", "\u{3a3}", "\u{3c3}", "\u{b5}", "\u{3c4}", "\u{3a6}", "\u{398}", "\u{3a9}", "\u{3b4}", "\u{221e}", "\u{3c6}", "\u{3b5}", "\u{2229}", "\u{2261}", "\u{b1}", "\u{2265}", "\u{2264}", "\u{2320}", "\u{2321}", "\u{f7}", "\u{2248}", "\u{b0}", "\u{2219}", "\u{b7}", "\u{221a}", "\u{207f}", "\u{b2}", "\u{25a0}", "\u{a0}"]),
    (5, ["\u{c7}", "\u{fc}", "\u{e9}", "\u{e2}", "\u{e4}", "\u{e0}", "\u{e5}", "\u{e7}", "\u{ea}", "\u{eb}", "\u{e8}", "\u{ef}", "\u{ee}", "\u{ec}", "\u{c4}", "\u{c5}", "\u{c9}", "\u{e6}", "\u{c6}", "\u{f4}", "\u{f6}", "\u{f2}", "\u{fb}", "\u{f9}", "\u{ff}", "\u{d6}", "\u{dc}", "\u{f8}", "\u{a3}", "\u{d8}", "\u{20a7}", "\u{192}", "\u{e1}", "\u{ed}", "\u{f3}", "\u{fa}", "\u{f1}", "\u{d1}", "\u{aa}", "\u{ba}", "\u{bf}", "\u{2310}", "\u{ac}", "\u{bd}", "\u{bc}", "\u{a1}", "\u{ab}", "\u{a4}", "\u{2591}", "\u{2592}", "\u{2593}", "\u{2502}", "\u{2524}", "\u{2561}", "\u{2562}", "\u{2556}", "\u{2555}", "\u{2563}", "\u{2551}", "\u{2557}", "\u{255d}", "\u{255c}", "\u{255b}", "\u{2510}", "\u{2514}", "\u{2534}", "\u{252c}", "\u{251c}", "\u{2500}", "\u{253c}", "\u{255e}", "\u{255f}", "\u{255a}", "\u{2554}", "\u{2569}", "\u{2566}", "\u{2560}", "\u{2550}", "\u{256c}", "\u{2567}", "\u{2568}", "\u{2564}", "\u{2565}", "\u{2559}", "\u{2558}", "\u{2552}", "\u{2553}", "\u{256b}", "\u{256a}", "\u{2518}", "\u{250c}", "\u{2588}", "\u{2584}", "\u{258c}", "\u{2590}", "\u{2580}", "\u{3b1}", "\u{df}", "\u{393}", "\u{3c0}", "\u{3a3}", "\u{3c3}", "\u{b5}", "\u{3c4}", "\u{3a6}", "\u{398}", "\u{3a9}", "\u{3b4}", "\u{221e}", "\u{3c6}", "\u{3b5}", "\u{2229}", "\u{2261}", "\u{b1}", "\u{2265}", "\u{2264}", "\u{2320}", "\u{2321}", "\u{f7}", "\u{2248}", "\u{b0}", "\u{2219}", "\u{b7}", "\u{221a}", "\u{207f}", "\u{b2}", "\u{25a0}", "\u{a0}"]),
    (11, ["\u{c7}", "\u{fc}", "\u{e9}", "\u{e2}", "\u{e4}", "\u{e0}", "\u{386}", "\u{e7}", "\u{ea}", "\u{eb}", "\u{e8}", "\u{ef}", "\u{ee}", "\u{388}", "\u{c4}", "\u{389}", "\u{38a}", "", "\u{38c}", "\u{f4}", "\u{f6}", "\u{38e}", "\u{fb}", "\u{f9}", "\u{38f}", "\u{d6}", "\u{dc}", "\u{3ac}", "\u{a3}", "\u{3ad}", "\u{3ae}", "\u{3af}", "\u{3ca}", "\u{390}", "\u{3cc}", "\u{3cd}", "\u{391}", "\u{392}", "\u{393}", "\u{394}", "\u{395}", "\u{396}", "\u{397}", "\u{bd}", "\u{398}", "\u{399}", "\u{ab}", "\u{bb}", "\u{2591}", "\u{2592}", "\u{2593}", "\u{2502}", "\u{2524}", "\u{39a}", "\u{39b}", "\u{39c}", "\u{39d}", "\u{2563}", "\u{2551}", "\u{2557}", "\u{255d}", "\u{39e}", "\u{39f}", "\u{2510}", "\u{2514}", "\u{2534}", "\u{252c}", "\u{251c}", "\u{2500}", "\u{253c}", "\u{3a0}", "\u{3a1}", "\u{255a}", "\u{2554}", "\u{2569}", "\u{2566}", "\u{2560}", "\u{2550}", "\u{256c}", "\u{3a3}", "\u{3a4}", "\u{3a5}", "\u{3a6}", "\u{3a7}", "\u{3a8}", "\u{3a9}", "\u{3b1}", "\u{3b2}", "\u{3b3}", "\u{2518}", "\u{250c}", "\u{2588}", "\u{2584}", "\u{3b4}", "\u{3b5}", "\u{2580}", "\u{3b6}", "\u{3b7}", "\u{3b8}", "\u{3b9}", "\u{3ba}", "\u{3bb}", "\u{3bc}", "\u{3bd}", "\u{3be}", "\u{3bf}", "\u{3c0}", "\u{3c1}", "\u{3c3}", "\u{3c2}", "\u{3c4}", "\u{b4}", "\u{ad}", "\u{b1}", "\u{3c5}", "\u{3c6}", "\u{3c7}", "\u{a7}", "\u{3c8}", "\u{b8}", "\u{b0}", "\u{a8}", "\u{3c9}", "\u{3cb}", "\u{3b0}", "\u{3ce}", "\u{25a0}", "\u{a0}"]),
    (12, ["\u{c7}", "\u{fc}", "\u{e9}", "\u{e2}", "\u{e4}", "\u{e0}", "\u{109}", "\u{e7}", "\u{ea}", "\u{eb}", "\u{e8}", "\u{ef}", "\u{ee}", "\u{ec}", "\u{c4}", "\u{108}", "\u{c9}", "\u{10b}", "\u{10a}", "\u{f4}", "\u{f6}", "\u{f2}", "\u{fb}", "\u{f9}", "\u{130}", "\u{d6}", "\u{dc}", "\u{11d}", "\u{a3}", "\u{11c}", "\u{d7}", "\u{135}", "\u{e1}", "\u{ed}", "\u{f3}", "\u{fa}", "\u{f1}", "\u{d1}", "\u{11e}", "\u{11f}", "\u{124}", "\u{125}", "", "\u{bd}", "\u{134}", "\u{15f}", "\u{ab}", "\u{bb}", "\u{2591}", "\u{2592}", "\u{2593}", "\u{2502}", "\u{2524}", "\u{c1}", "\u{c2}", "\u{c0}", "\u{15e}", "\u{2563}", "\u{2551}", "\u{2557}", "\u{255d}", "\u{17b}", "\u{17c}", "\u{2510}", "\u{2514}", "\u{2534}", "\u{252c}", "\u{251c}", "\u{2500}", "\u{253c}", "\u{15c}", "\u{15d}", "\u{255a}", "\u{2554}", "\u{2569}", "\u{2566}", "\u{2560}", "\u{2550}", "\u{256c}", "\u{a4}", "", "", "\u{ca}", "\u{cb}", "\u{c8}", "\u{131}", "\u{cd}", "\u{ce}", "\u{cf}", "\u{2518}", "\u{250c}", "\u{2588}", "\u{2584}", "", "\u{cc}", "\u{2580}", "\u{d3}", "\u{df}", "\u{d4}", "\u{d2}", "\u{120}", "\u{121}", "\u{b5}", "\u{126}", "\u{127}", "\u{da}", "\u{db}", "\u{d9}", "\u{16c}", "\u{16d}", "\u{b7}", "\u{b4}", "\u{ad}", "", "\u{2113}", "\u{149}", "\u{2d8}", "\u{a7}", "\u{f7}", "\u{b8}", "\u{b0}", "\u{a8}", "\u{2d9}", "", "\u{b3}", "\u{b2}", "\u{25a0}", "\u{a0}"]),
    (13, ["\u{c7}", "\u{fc}", "\u{e9}", "\u{e2}", "\u{e4}", "\u{e0}", "\u{e5}", "\u{e7}", "\u{ea}", "\u{eb}", "\u{e8}", "\u{ef}", "\u{ee}", "\u{131}", "\u{c4}", "\u{c5}", "\u{c9}", "\u{e6}", "\u{c6}", "\u{f4}", "\u{f6}", "\u{f2}", "\u{fb}", "\u{f9}", "\u{130}", "\u{d6}", "\u{dc}", "\u{f8}", "\u{a3}", "\u{d8}", "\u{15e}", "\u{15f}", "\u{e1}", "\u{ed}", "\u{f3}", "\u{fa}", "\u{f1}", "\u{d1}", "\u{11e}", "\u{11f}", "\u{bf}", "\u{ae}", "\u{ac}", "\u{bd}", "\u{bc}", "\u{a1}", "\u{ab}", "\u{bb}", "\u{2591}", "\u{2592}", "\u{2593}", "\u{2502}", "\u{2524}", "\u{c1}", "\u{c2}", "\u{c0}", "\u{a9}", "\u{2563}", "\u{2551}", "\u{2557}", "\u{255d}", "\u{a2}", "\u{a5}", "\u{2510}", "\u{2514}", "\u{2534}", "\u{252c}", "\u{251c}", "\u{2500}", "\u{253c}", "\u{e3}", "\u{c3}", "\u{255a}", "\u{2554}", "\u{2569}", "\u{2566}", "\u{2560}", "\u{2550}", "\u{256c}", "\u{a4}", "\u{ba}", "\u{aa}", "\u{ca}", "\u{cb}", "\u{c8}", "\u{20ac}", "\u{cd}", "\u{ce}", "\u{cf}", "\u{2518}", "\u{250c}", "\u{2588}", "\u{2584}", "\u{a6}", "\u{cc}", "\u{2580}", "\u{d3}", "\u{df}", "\u{d4}", "\u{d2}", "\u{f5}", "\u{d5}", "\u{b5}", "", "\u{d7}", "\u{da}", "\u{db}", "\u{d9}", "\u{ec}", "\u{ff}", "\u{af}", "\u{b4}", "\u{ad}", "\u{b1}", "", "\u{be}", "\u{b6}", "\u{a7}", "\u{f7}", "\u{b8}", "\u{b0}", "\u{a8}", "\u{b7}", "\u{b9}", "\u{b3}", "\u{b2}", "\u{25a0}", "\u{a0}"]),
];
pub const BASE: [&str; 128] = ["\u{0}", "\u{1}", "\u{2}", "\u{3}", "\u{4}", "\u{5}", "\u{6}", "\u{7}", "\u{8}", "\u{9}", "\u{a}", "\u{b}", "\u{c}", "\u{d}", "\u{e}", "\u{f}", "\u{10}", "\u{11}", "\u{12}", "\u{13}", "\u{14}", "\u{15}", "\u{16}", "\u{17}", "\u{18}", "\u{19}", "\u{1a}", "\u{1b}", "\u{1c}", "\u{1d}", "\u{1e}", "\u{1f}", " ", "!", "\u{22}", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?", "@", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "[", "\u{5c}", "]", "^", "_", "`", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "{", "|", "}", "~", "\u{7f}"];
pub const SETS: &[(u8, &[(u8, &str)])] = &[
    (1, &[(0x40, "\u{e0}"), (0x5B, "\u{e7}"), (0x5C, "\u{a7}"), (0x5D, "^"), (0x5E, "\u{e9}"), (0x60, "\u{f9}"), (0x7B, "\u{e8}"), (0x7C, "\u{a8}"), (0x7D, "\u{fb}"), (0x7E, "\u{fc}")]), // FRANCE
    (2, &[(0x40, "\u{a7}"), (0x5B, "\u{c4}"), (0x5C, "\u{d6}"), (0x5D, "\u{dc}"), (0x60, "\u{e4}"), (0x7B, "\u{f6}"), (0x7C, "\u{fc}"), (0x7D, "\u{df}")]), // GERMANY
    (3, &[(0x23, "\u{a3}")]), // UK
    (4, &[(0x40, "\u{c4}"), (0x5B, "\u{c6}"), (0x5C, "\u{d8}"), (0x5D, "\u{c5}"), (0x5E, "^"), (0x60, "\u{e4}"), (0x7B, "\u{e6}"), (0x7C, "\u{f8}"), (0x7D, "\u{e5}"), (0x7E, "~")]), // DENMARK_I
    (5, &[(0x40, "\u{c9}"), (0x5B, "\u{c4}"), (0x5C, "\u{d6}"), (0x5D, "\u{c5}"), (0x5E, "\u{dc}"), (0x60, "\u{e9}"), (0x7B, "\u{e4}"), (0x7C, "\u{f6}"), (0x7D, "\u{e5}"), (0x7E, "\u{fc}")]), // SWEDEN
    (6, &[(0x40, "\u{a7}"), (0x5C, "\u{f9}"), (0x5E, "\u{e9}"), (0x60, "\u{e0}"), (0x7B, "\u{f2}"), (0x7C, "\u{e7}"), (0x7D, "\u{e8}"), (0x7E, "\u{ec}")]), // ITALY
    (7, &[(0x40, "\u{d1}"), (0x5B, "\u{a1}"), (0x5C, "\u{bf}"), (0x5D, "\u{e7}"), (0x7B, "\u{f1}"), (0x7C, "\u{ac}"), (0x7D, "\u{bd}"), (0x7E, "\u{bc}")]), // SPAIN_I
    (8, &[(0x5C, "\u{a5}"), (0x7C, "\u{a6}")]), // JAPAN
    (9, &[(0x40, "\u{c4}"), (0x5B, "\u{c6}"), (0x5C, "\u{d8}"), (0x5D, "\u{c5}"), (0x5E, "\u{dc}"), (0x60, "\u{e4}"), (0x7B, "\u{e6}"), (0x7C, "\u{f8}"), (0x7D, "\u{e5}"), (0x7E, "\u{fc}")]), // NORWAY
    (10, &[(0x40, "\u{c9}"), (0x5B, "\u{c6}"), (0x5C, "\u{d8}"), (0x5D, "\u{c5}"), (0x5E, "\u{dc}"), (0x60, "\u{e9}"), (0x7B, "\u{e6}"), (0x7C, "\u{f8}"), (0x7D, "\u{e5}"), (0x7E, "\u{fc}")]), // DENMARK_II
    (11, &[(0x40, "\u{e1}"), (0x5B, "\u{ed}"), (0x5C, "\u{d1}"), (0x5D, "\u{d3}"), (0x5E, "\u{da}"), (0x60, "\u{f1}"), (0x7B, "\u{e1}"), (0x7C, "\u{ed}"), (0x7D, "\u{f3}"), (0x7E, "\u{fa}")]), // SPAIN_II
    (12, &[(0x40, "\u{e1}"), (0x5B, "\u{ed}"), (0x5C, "\u{d1}"), (0x5D, "\u{d3}"), (0x5E, "\u{da}"), (0x60, "\u{f1}"), (0x7B, "\u{e9}"), (0x7C, "\u{ed}"), (0x7D, "\u{f3}"), (0x7E, "\u{fa}")]), // LATIN_AMERICA
    (13, &[(0x5C, "\u{20a9}"), (0x7C, "\u{20a9}")]), // KOREA
    (14, &[(0x5B, "\u{160}"), (0x5C, "\u{110}"), (0x5D, "\u{10c}"), (0x7B, "\u{17e}"), (0x7C, "\u{111}"), (0x7D, "\u{10d}")]), // SLOVENIA
    (15, &[(0x5C, "\u{a5}")]), // CHINA
    (16, &[(0x23, "\u{111}")]), // VIETNAM
    (17, &[(0x2A, "\u{66d}")]), // ARABIA
    (66, &[(0x30, "\u{966}"), (0x31, "\u{967}"), (0x32, "\u{968}"), (0x33, "\u{969}"), (0x34, "\u{96a}"), (0x35, "\u{96b}"), (0x36, "\u{96c}"), (0x37, "\u{96d}"), (0x38, "\u{96e}"), (0x39, "\u{96f}")]), // DEVANAGARI
    (67, &[(0x30, "\u{9e6}"), (0x31, "\u{9e7}"), (0x32, "\u{9e8}"), (0x33, "\u{9e9}"), (0x34, "\u{9ea}"), (0x35, "\u{9eb}"), (0x36, "\u{9ec}"), (0x37, "\u{9ed}"), (0x38, "\u{9ee}"), (0x39, "\u{9ef}")]), // BENGALI
    (68, &[(0x30, "\u{be6}"), (0x31, "\u{be7}"), (0x32, "\u{be8}"), (0x33, "\u{be9}"), (0x34, "\u{bea}"), (0x35, "\u{beb}"), (0x36, "\u{bec}"), (0x37, "\u{bed}"), (0x38, "\u{bee}"), (0x39, "\u{bef}")]), // TAMIL
    (69, &[(0x30, "\u{c66}"), (0x31, "\u{c67}"), (0x32, "\u{c68}"), (0x33, "\u{c69}"), (0x34, "\u{c6a}"), (0x35, "\u{c6b}"), (0x36, "\u{c6c}"), (0x37, "\u{c6d}"), (0x38, "\u{c6e}"), (0x39, "\u{c6f}")]), // TELUGU
    (70, &[(0x30, "\u{9e6}"), (0x31, "\u{9e7}"), (0x32, "\u{9e8}"), (0x33, "\u{9e9}"), (0x34, "\u{9ea}"), (0x35, "\u{9eb}"), (0x36, "\u{9ec}"), (0x37, "\u{9ed}"), (0x38, "\u{9ee}"), (0x39, "\u{9ef}")]), // ASSAMESE
    (71, &[(0x30, "\u{b66}"), (0x31, "\u{b67}"), (0x32, "\u{b68}"), (0x33, "\u{b69}"), (0x34, "\u{b6a}"), (0x35, "\u{b6b}"), (0x36, "\u{b6c}"), (0x37, "\u{b6d}"), (0x38, "\u{b6e}"), (0x39, "\u{b6f}")]), // ORIYA
    (72, &[(0x30, "\u{ce6}"), (0x31, "\u{ce7}"), (0x32, "\u{ce8}"), (0x33, "\u{ce9}"), (0x34, "\u{cea}"), (0x35, "\u{ceb}"), (0x36, "\u{cec}"), (0x37, "\u{ced}"), (0x38, "\u{cee}"), (0x39, "\u{cef}")]), // KANNADA
    (73, &[(0x30, "\u{d66}"), (0x31, "\u{d67}"), (0x32, "\u{d68}"), (0x33, "\u{d69}"), (0x34, "\u{d6a}"), (0x35, "\u{d6b}"), (0x36, "\u{d6c}"), (0x37, "\u{d6d}"), (0x38, "\u{d6e}"), (0x39, "\u{d6f}")]), // MALAYALAM
    (74, &[(0x30, "\u{ae6}"), (0x31, "\u{ae7}"), (0x32, "\u{ae8}"), (0x33, "\u{ae9}"), (0x34, "\u{aea}"), (0x35, "\u{aeb}"), (0x36, "\u{aec}"), (0x37, "\u{aed}"), (0x38, "\u{aee}"), (0x39, "\u{aef}")]), // GUJARATI
    (75, &[(0x30, "\u{a66}"), (0x31, "\u{a67}"), (0x32, "\u{a68}"), (0x33, "\u{a69}"), (0x34, "\u{a6a}"), (0x35, "\u{a6b}"), (0x36, "\u{a6c}"), (0x37, "\u{a6d}"), (0x38, "\u{a6e}"), (0x39, "\u{a6f}")]), // PUNJABI
    (82, &[(0x30, "\u{966}"), (0x31, "\u{967}"), (0x32, "\u{968}"), (0x33, "\u{969}"), (0x34, "\u{96a}"), (0x35, "\u{96b}"), (0x36, "\u{96c}"), (0x37, "\u{96d}"), (0x38, "\u{96e}"), (0x39, "\u{96f}")]), // MARATHI
];
