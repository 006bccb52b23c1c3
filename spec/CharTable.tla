---- MODULE CharTable ----
\* Generated by gen_chartable.py from the Unicode 15.0.0 data; see there.
\* CharRows: <<first, last code point, the codes each contributes to a word>>, ordered;
\* code points without a row contribute one punctuation code, Hangul syllables one for each of their parts.
EXTENDS Integers, Sequences
CharRows == <<
<<160, 160, <<27>>>>,
<<168, 168, <<27>>>>,
<<170, 170, <<0>>>>,
<<175, 175, <<27>>>>,
<<180, 180, <<27>>>>,
<<184, 184, <<27>>>>,
<<186, 186, <<14>>>>,
<<188, 190, <<26, 26, 26>>>>,
<<192, 197, <<0>>>>,
<<198, 198, <<0, 4>>>>,
<<199, 199, <<2>>>>,
<<200, 203, <<4>>>>,
<<204, 207, <<8>>>>,
<<209, 209, <<13>>>>,
<<210, 214, <<14>>>>,
<<217, 220, <<20>>>>,
<<221, 221, <<24>>>>,
<<223, 223, <<18, 18>>>>,
<<224, 229, <<0>>>>,
<<230, 230, <<0, 4>>>>,
<<231, 231, <<2>>>>,
<<232, 235, <<4>>>>,
<<236, 239, <<8>>>>,
<<241, 241, <<13>>>>,
<<242, 246, <<14>>>>,
<<249, 252, <<20>>>>,
<<253, 253, <<24>>>>,
<<255, 255, <<24>>>>,
<<256, 261, <<0>>>>,
<<262, 269, <<2>>>>,
<<270, 271, <<3>>>>,
<<274, 283, <<4>>>>,
<<284, 291, <<6>>>>,
<<292, 293, <<7>>>>,
<<296, 305, <<8>>>>,
<<306, 307, <<8, 9>>>>,
<<308, 309, <<9>>>>,
<<310, 311, <<10>>>>,
<<313, 318, <<11>>>>,
<<319, 320, <<11, 26>>>>,
<<323, 328, <<13>>>>,
<<329, 329, <<26, 13>>>>,
<<332, 337, <<14>>>>,
<<338, 339, <<14, 4>>>>,
<<340, 345, <<17>>>>,
<<346, 353, <<18>>>>,
<<354, 357, <<19>>>>,
<<360, 371, <<20>>>>,
<<372, 373, <<22>>>>,
<<374, 376, <<24>>>>,
<<377, 382, <<25>>>>,
<<383, 383, <<18>>>>,
<<416, 417, <<14>>>>,
<<431, 432, <<20>>>>,
<<452, 454, <<3, 25>>>>,
<<455, 457, <<11, 9>>>>,
<<458, 460, <<13, 9>>>>,
<<461, 462, <<0>>>>,
<<463, 464, <<8>>>>,
<<465, 466, <<14>>>>,
<<467, 476, <<20>>>>,
<<478, 481, <<0>>>>,
<<482, 483, <<0, 4>>>>,
<<486, 487, <<6>>>>,
<<488, 489, <<10>>>>,
<<490, 493, <<14>>>>,
<<496, 496, <<9>>>>,
<<497, 499, <<3, 25>>>>,
<<500, 501, <<6>>>>,
<<504, 505, <<13>>>>,
<<506, 507, <<0>>>>,
<<508, 509, <<0, 4>>>>,
<<512, 515, <<0>>>>,
<<516, 519, <<4>>>>,
<<520, 523, <<8>>>>,
<<524, 527, <<14>>>>,
<<528, 531, <<17>>>>,
<<532, 535, <<20>>>>,
<<536, 537, <<18>>>>,
<<538, 539, <<19>>>>,
<<542, 543, <<7>>>>,
<<550, 551, <<0>>>>,
<<552, 553, <<4>>>>,
<<554, 561, <<14>>>>,
<<562, 563, <<24>>>>,
<<688, 688, <<7>>>>,
<<690, 690, <<9>>>>,
<<691, 691, <<17>>>>,
<<695, 695, <<22>>>>,
<<696, 696, <<24>>>>,
<<728, 733, <<27>>>>,
<<737, 737, <<11>>>>,
<<738, 738, <<18>>>>,
<<739, 739, <<23>>>>,
<<768, 879, <<>>>>,
<<890, 890, <<27>>>>,
<<900, 901, <<27>>>>,
<<1155, 1161, <<>>>>,
<<1415, 1415, <<26, 26>>>>,
<<1425, 1469, <<>>>>,
<<1471, 1471, <<>>>>,
<<1473, 1474, <<>>>>,
<<1476, 1477, <<>>>>,
<<1479, 1479, <<>>>>,
<<1552, 1562, <<>>>>,
<<1611, 1631, <<>>>>,
<<1648, 1648, <<>>>>,
<<1653, 1656, <<26, 26>>>>,
<<1750, 1756, <<>>>>,
<<1759, 1764, <<>>>>,
<<1767, 1768, <<>>>>,
<<1770, 1773, <<>>>>,
<<1809, 1809, <<>>>>,
<<1840, 1866, <<>>>>,
<<1958, 1968, <<>>>>,
<<2027, 2035, <<>>>>,
<<2045, 2045, <<>>>>,
<<2070, 2073, <<>>>>,
<<2075, 2083, <<>>>>,
<<2085, 2087, <<>>>>,
<<2089, 2093, <<>>>>,
<<2137, 2139, <<>>>>,
<<2259, 2273, <<>>>>,
<<2275, 2307, <<>>>>,
<<2362, 2364, <<>>>>,
<<2366, 2383, <<>>>>,
<<2385, 2391, <<>>>>,
<<2402, 2403, <<>>>>,
<<2433, 2435, <<>>>>,
<<2492, 2492, <<>>>>,
<<2494, 2500, <<>>>>,
<<2503, 2504, <<>>>>,
<<2507, 2509, <<>>>>,
<<2519, 2519, <<>>>>,
<<2530, 2531, <<>>>>,
<<2558, 2558, <<>>>>,
<<2561, 2563, <<>>>>,
<<2620, 2620, <<>>>>,
<<2622, 2626, <<>>>>,
<<2631, 2632, <<>>>>,
<<2635, 2637, <<>>>>,
<<2641, 2641, <<>>>>,
<<2672, 2673, <<>>>>,
<<2677, 2677, <<>>>>,
<<2689, 2691, <<>>>>,
<<2748, 2748, <<>>>>,
<<2750, 2757, <<>>>>,
<<2759, 2761, <<>>>>,
<<2763, 2765, <<>>>>,
<<2786, 2787, <<>>>>,
<<2810, 2815, <<>>>>,
<<2817, 2819, <<>>>>,
<<2876, 2876, <<>>>>,
<<2878, 2884, <<>>>>,
<<2887, 2888, <<>>>>,
<<2891, 2893, <<>>>>,
<<2901, 2903, <<>>>>,
<<2914, 2915, <<>>>>,
<<2946, 2946, <<>>>>,
<<3006, 3010, <<>>>>,
<<3014, 3016, <<>>>>,
<<3018, 3021, <<>>>>,
<<3031, 3031, <<>>>>,
<<3072, 3076, <<>>>>,
<<3134, 3140, <<>>>>,
<<3142, 3144, <<>>>>,
<<3146, 3149, <<>>>>,
<<3157, 3158, <<>>>>,
<<3170, 3171, <<>>>>,
<<3201, 3203, <<>>>>,
<<3260, 3260, <<>>>>,
<<3262, 3268, <<>>>>,
<<3270, 3272, <<>>>>,
<<3274, 3277, <<>>>>,
<<3285, 3286, <<>>>>,
<<3298, 3299, <<>>>>,
<<3328, 3331, <<>>>>,
<<3387, 3388, <<>>>>,
<<3390, 3396, <<>>>>,
<<3398, 3400, <<>>>>,
<<3402, 3405, <<>>>>,
<<3415, 3415, <<>>>>,
<<3426, 3427, <<>>>>,
<<3457, 3459, <<>>>>,
<<3530, 3530, <<>>>>,
<<3535, 3540, <<>>>>,
<<3542, 3542, <<>>>>,
<<3544, 3551, <<>>>>,
<<3570, 3571, <<>>>>,
<<3633, 3633, <<>>>>,
<<3636, 3642, <<>>>>,
<<3655, 3662, <<>>>>,
<<3761, 3761, <<>>>>,
<<3764, 3772, <<>>>>,
<<3784, 3789, <<>>>>,
<<3804, 3805, <<26, 26>>>>,
<<3864, 3865, <<>>>>,
<<3893, 3893, <<>>>>,
<<3895, 3895, <<>>>>,
<<3897, 3897, <<>>>>,
<<3902, 3903, <<>>>>,
<<3953, 3972, <<>>>>,
<<3974, 3975, <<>>>>,
<<3981, 3991, <<>>>>,
<<3993, 4028, <<>>>>,
<<4038, 4038, <<>>>>,
<<4139, 4158, <<>>>>,
<<4182, 4185, <<>>>>,
<<4190, 4192, <<>>>>,
<<4194, 4196, <<>>>>,
<<4199, 4205, <<>>>>,
<<4209, 4212, <<>>>>,
<<4226, 4237, <<>>>>,
<<4239, 4239, <<>>>>,
<<4250, 4253, <<>>>>,
<<4957, 4959, <<>>>>,
<<5906, 5908, <<>>>>,
<<5938, 5940, <<>>>>,
<<5970, 5971, <<>>>>,
<<6002, 6003, <<>>>>,
<<6068, 6099, <<>>>>,
<<6109, 6109, <<>>>>,
<<6155, 6157, <<>>>>,
<<6277, 6278, <<>>>>,
<<6313, 6313, <<>>>>,
<<6432, 6443, <<>>>>,
<<6448, 6459, <<>>>>,
<<6679, 6683, <<>>>>,
<<6741, 6750, <<>>>>,
<<6752, 6780, <<>>>>,
<<6783, 6783, <<>>>>,
<<6832, 6848, <<>>>>,
<<6912, 6916, <<>>>>,
<<6964, 6980, <<>>>>,
<<7019, 7027, <<>>>>,
<<7040, 7042, <<>>>>,
<<7073, 7085, <<>>>>,
<<7142, 7155, <<>>>>,
<<7204, 7223, <<>>>>,
<<7376, 7378, <<>>>>,
<<7380, 7400, <<>>>>,
<<7405, 7405, <<>>>>,
<<7412, 7412, <<>>>>,
<<7415, 7417, <<>>>>,
<<7468, 7468, <<0>>>>,
<<7469, 7469, <<0, 4>>>>,
<<7470, 7470, <<1>>>>,
<<7472, 7472, <<3>>>>,
<<7473, 7473, <<4>>>>,
<<7475, 7475, <<6>>>>,
<<7476, 7476, <<7>>>>,
<<7477, 7477, <<8>>>>,
<<7478, 7478, <<9>>>>,
<<7479, 7479, <<10>>>>,
<<7480, 7480, <<11>>>>,
<<7481, 7481, <<12>>>>,
<<7482, 7482, <<13>>>>,
<<7484, 7484, <<14>>>>,
<<7486, 7486, <<15>>>>,
<<7487, 7487, <<17>>>>,
<<7488, 7488, <<19>>>>,
<<7489, 7489, <<20>>>>,
<<7490, 7490, <<22>>>>,
<<7491, 7491, <<0>>>>,
<<7495, 7495, <<1>>>>,
<<7496, 7496, <<3>>>>,
<<7497, 7497, <<4>>>>,
<<7501, 7501, <<6>>>>,
<<7503, 7503, <<10>>>>,
<<7504, 7504, <<12>>>>,
<<7506, 7506, <<14>>>>,
<<7510, 7510, <<15>>>>,
<<7511, 7511, <<19>>>>,
<<7512, 7512, <<20>>>>,
<<7515, 7515, <<21>>>>,
<<7522, 7522, <<8>>>>,
<<7523, 7523, <<17>>>>,
<<7524, 7524, <<20>>>>,
<<7525, 7525, <<21>>>>,
<<7580, 7580, <<2>>>>,
<<7584, 7584, <<5>>>>,
<<7611, 7611, <<25>>>>,
<<7616, 7673, <<>>>>,
<<7675, 7679, <<>>>>,
<<7680, 7681, <<0>>>>,
<<7682, 7687, <<1>>>>,
<<7688, 7689, <<2>>>>,
<<7690, 7699, <<3>>>>,
<<7700, 7709, <<4>>>>,
<<7710, 7711, <<5>>>>,
<<7712, 7713, <<6>>>>,
<<7714, 7723, <<7>>>>,
<<7724, 7727, <<8>>>>,
<<7728, 7733, <<10>>>>,
<<7734, 7741, <<11>>>>,
<<7742, 7747, <<12>>>>,
<<7748, 7755, <<13>>>>,
<<7756, 7763, <<14>>>>,
<<7764, 7767, <<15>>>>,
<<7768, 7775, <<17>>>>,
<<7776, 7785, <<18>>>>,
<<7786, 7793, <<19>>>>,
<<7794, 7803, <<20>>>>,
<<7804, 7807, <<21>>>>,
<<7808, 7817, <<22>>>>,
<<7818, 7821, <<23>>>>,
<<7822, 7823, <<24>>>>,
<<7824, 7829, <<25>>>>,
<<7830, 7830, <<7>>>>,
<<7831, 7831, <<19>>>>,
<<7832, 7832, <<22>>>>,
<<7833, 7833, <<24>>>>,
<<7834, 7834, <<0, 26>>>>,
<<7835, 7835, <<18>>>>,
<<7840, 7863, <<0>>>>,
<<7864, 7879, <<4>>>>,
<<7880, 7883, <<8>>>>,
<<7884, 7907, <<14>>>>,
<<7908, 7921, <<20>>>>,
<<7922, 7929, <<24>>>>,
<<8125, 8125, <<27>>>>,
<<8127, 8129, <<27>>>>,
<<8141, 8143, <<27>>>>,
<<8157, 8159, <<27>>>>,
<<8173, 8174, <<27>>>>,
<<8189, 8190, <<27>>>>,
<<8192, 8202, <<27>>>>,
<<8215, 8215, <<27>>>>,
<<8229, 8229, <<26, 26>>>>,
<<8230, 8230, <<26, 26, 26>>>>,
<<8239, 8239, <<27>>>>,
<<8243, 8243, <<26, 26>>>>,
<<8244, 8244, <<26, 26, 26>>>>,
<<8246, 8246, <<26, 26>>>>,
<<8247, 8247, <<26, 26, 26>>>>,
<<8252, 8252, <<26, 26>>>>,
<<8254, 8254, <<27>>>>,
<<8263, 8265, <<26, 26>>>>,
<<8279, 8279, <<26, 26, 26, 26>>>>,
<<8287, 8287, <<27>>>>,
<<8305, 8305, <<8>>>>,
<<8319, 8319, <<13>>>>,
<<8336, 8336, <<0>>>>,
<<8337, 8337, <<4>>>>,
<<8338, 8338, <<14>>>>,
<<8339, 8339, <<23>>>>,
<<8341, 8341, <<7>>>>,
<<8342, 8342, <<10>>>>,
<<8343, 8343, <<11>>>>,
<<8344, 8344, <<12>>>>,
<<8345, 8345, <<13>>>>,
<<8346, 8346, <<15>>>>,
<<8347, 8347, <<18>>>>,
<<8348, 8348, <<19>>>>,
<<8360, 8360, <<17, 18>>>>,
<<8400, 8432, <<>>>>,
<<8448, 8448, <<0, 26, 2>>>>,
<<8449, 8449, <<0, 26, 18>>>>,
<<8450, 8450, <<2>>>>,
<<8451, 8451, <<26, 2>>>>,
<<8453, 8453, <<2, 26, 14>>>>,
<<8454, 8454, <<2, 26, 20>>>>,
<<8457, 8457, <<26, 5>>>>,
<<8458, 8458, <<6>>>>,
<<8459, 8462, <<7>>>>,
<<8464, 8465, <<8>>>>,
<<8466, 8467, <<11>>>>,
<<8469, 8469, <<13>>>>,
<<8470, 8470, <<13, 14>>>>,
<<8473, 8473, <<15>>>>,
<<8474, 8474, <<16>>>>,
<<8475, 8477, <<17>>>>,
<<8480, 8480, <<18, 12>>>>,
<<8481, 8481, <<19, 4, 11>>>>,
<<8482, 8482, <<19, 12>>>>,
<<8484, 8484, <<25>>>>,
<<8488, 8488, <<25>>>>,
<<8490, 8490, <<10>>>>,
<<8491, 8491, <<0>>>>,
<<8492, 8492, <<1>>>>,
<<8493, 8493, <<2>>>>,
<<8495, 8496, <<4>>>>,
<<8497, 8497, <<5>>>>,
<<8499, 8499, <<12>>>>,
<<8500, 8500, <<14>>>>,
<<8505, 8505, <<8>>>>,
<<8507, 8507, <<5, 0, 23>>>>,
<<8517, 8518, <<3>>>>,
<<8519, 8519, <<4>>>>,
<<8520, 8520, <<8>>>>,
<<8521, 8521, <<9>>>>,
<<8528, 8529, <<26, 26, 26>>>>,
<<8530, 8530, <<26, 26, 26, 26>>>>,
<<8531, 8542, <<26, 26, 26>>>>,
<<8543, 8543, <<26, 26>>>>,
<<8544, 8544, <<8>>>>,
<<8545, 8545, <<8, 8>>>>,
<<8546, 8546, <<8, 8, 8>>>>,
<<8547, 8547, <<8, 21>>>>,
<<8548, 8548, <<21>>>>,
<<8549, 8549, <<21, 8>>>>,
<<8550, 8550, <<21, 8, 8>>>>,
<<8551, 8551, <<21, 8, 8, 8>>>>,
<<8552, 8552, <<8, 23>>>>,
<<8553, 8553, <<23>>>>,
<<8554, 8554, <<23, 8>>>>,
<<8555, 8555, <<23, 8, 8>>>>,
<<8556, 8556, <<11>>>>,
<<8557, 8557, <<2>>>>,
<<8558, 8558, <<3>>>>,
<<8559, 8559, <<12>>>>,
<<8560, 8560, <<8>>>>,
<<8561, 8561, <<8, 8>>>>,
<<8562, 8562, <<8, 8, 8>>>>,
<<8563, 8563, <<8, 21>>>>,
<<8564, 8564, <<21>>>>,
<<8565, 8565, <<21, 8>>>>,
<<8566, 8566, <<21, 8, 8>>>>,
<<8567, 8567, <<21, 8, 8, 8>>>>,
<<8568, 8568, <<8, 23>>>>,
<<8569, 8569, <<23>>>>,
<<8570, 8570, <<23, 8>>>>,
<<8571, 8571, <<23, 8, 8>>>>,
<<8572, 8572, <<11>>>>,
<<8573, 8573, <<2>>>>,
<<8574, 8574, <<3>>>>,
<<8575, 8575, <<12>>>>,
<<8585, 8585, <<26, 26, 26>>>>,
<<8748, 8748, <<26, 26>>>>,
<<8749, 8749, <<26, 26, 26>>>>,
<<8751, 8751, <<26, 26>>>>,
<<8752, 8752, <<26, 26, 26>>>>,
<<9321, 9331, <<26, 26>>>>,
<<9332, 9340, <<26, 26, 26>>>>,
<<9341, 9351, <<26, 26, 26, 26>>>>,
<<9352, 9360, <<26, 26>>>>,
<<9361, 9371, <<26, 26, 26>>>>,
<<9372, 9372, <<26, 0, 26>>>>,
<<9373, 9373, <<26, 1, 26>>>>,
<<9374, 9374, <<26, 2, 26>>>>,
<<9375, 9375, <<26, 3, 26>>>>,
<<9376, 9376, <<26, 4, 26>>>>,
<<9377, 9377, <<26, 5, 26>>>>,
<<9378, 9378, <<26, 6, 26>>>>,
<<9379, 9379, <<26, 7, 26>>>>,
<<9380, 9380, <<26, 8, 26>>>>,
<<9381, 9381, <<26, 9, 26>>>>,
<<9382, 9382, <<26, 10, 26>>>>,
<<9383, 9383, <<26, 11, 26>>>>,
<<9384, 9384, <<26, 12, 26>>>>,
<<9385, 9385, <<26, 13, 26>>>>,
<<9386, 9386, <<26, 14, 26>>>>,
<<9387, 9387, <<26, 15, 26>>>>,
<<9388, 9388, <<26, 16, 26>>>>,
<<9389, 9389, <<26, 17, 26>>>>,
<<9390, 9390, <<26, 18, 26>>>>,
<<9391, 9391, <<26, 19, 26>>>>,
<<9392, 9392, <<26, 20, 26>>>>,
<<9393, 9393, <<26, 21, 26>>>>,
<<9394, 9394, <<26, 22, 26>>>>,
<<9395, 9395, <<26, 23, 26>>>>,
<<9396, 9396, <<26, 24, 26>>>>,
<<9397, 9397, <<26, 25, 26>>>>,
<<9398, 9398, <<0>>>>,
<<9399, 9399, <<1>>>>,
<<9400, 9400, <<2>>>>,
<<9401, 9401, <<3>>>>,
<<9402, 9402, <<4>>>>,
<<9403, 9403, <<5>>>>,
<<9404, 9404, <<6>>>>,
<<9405, 9405, <<7>>>>,
<<9406, 9406, <<8>>>>,
<<9407, 9407, <<9>>>>,
<<9408, 9408, <<10>>>>,
<<9409, 9409, <<11>>>>,
<<9410, 9410, <<12>>>>,
<<9411, 9411, <<13>>>>,
<<9412, 9412, <<14>>>>,
<<9413, 9413, <<15>>>>,
<<9414, 9414, <<16>>>>,
<<9415, 9415, <<17>>>>,
<<9416, 9416, <<18>>>>,
<<9417, 9417, <<19>>>>,
<<9418, 9418, <<20>>>>,
<<9419, 9419, <<21>>>>,
<<9420, 9420, <<22>>>>,
<<9421, 9421, <<23>>>>,
<<9422, 9422, <<24>>>>,
<<9423, 9423, <<25>>>>,
<<9424, 9424, <<0>>>>,
<<9425, 9425, <<1>>>>,
<<9426, 9426, <<2>>>>,
<<9427, 9427, <<3>>>>,
<<9428, 9428, <<4>>>>,
<<9429, 9429, <<5>>>>,
<<9430, 9430, <<6>>>>,
<<9431, 9431, <<7>>>>,
<<9432, 9432, <<8>>>>,
<<9433, 9433, <<9>>>>,
<<9434, 9434, <<10>>>>,
<<9435, 9435, <<11>>>>,
<<9436, 9436, <<12>>>>,
<<9437, 9437, <<13>>>>,
<<9438, 9438, <<14>>>>,
<<9439, 9439, <<15>>>>,
<<9440, 9440, <<16>>>>,
<<9441, 9441, <<17>>>>,
<<9442, 9442, <<18>>>>,
<<9443, 9443, <<19>>>>,
<<9444, 9444, <<20>>>>,
<<9445, 9445, <<21>>>>,
<<9446, 9446, <<22>>>>,
<<9447, 9447, <<23>>>>,
<<9448, 9448, <<24>>>>,
<<9449, 9449, <<25>>>>,
<<10764, 10764, <<26, 26, 26, 26>>>>,
<<10868, 10868, <<26, 26, 26>>>>,
<<10869, 10869, <<26, 26>>>>,
<<10870, 10870, <<26, 26, 26>>>>,
<<11388, 11388, <<9>>>>,
<<11389, 11389, <<21>>>>,
<<11503, 11505, <<>>>>,
<<11647, 11647, <<>>>>,
<<11744, 11775, <<>>>>,
<<12288, 12288, <<27>>>>,
<<12330, 12335, <<>>>>,
<<12441, 12442, <<>>>>,
<<12443, 12444, <<27>>>>,
<<12447, 12447, <<26, 26>>>>,
<<12543, 12543, <<26, 26>>>>,
<<12800, 12813, <<26, 26, 26>>>>,
<<12814, 12828, <<26, 26, 26, 26>>>>,
<<12829, 12829, <<26, 26, 26, 26, 26, 26, 26>>>>,
<<12830, 12830, <<26, 26, 26, 26, 26, 26>>>>,
<<12832, 12867, <<26, 26, 26>>>>,
<<12880, 12880, <<15, 19, 4>>>>,
<<12881, 12895, <<26, 26>>>>,
<<12910, 12923, <<26, 26>>>>,
<<12924, 12924, <<26, 26, 26, 26, 26>>>>,
<<12925, 12925, <<26, 26, 26, 26>>>>,
<<12926, 12926, <<26, 26>>>>,
<<12977, 13000, <<26, 26>>>>,
<<13001, 13003, <<26, 26, 26>>>>,
<<13004, 13004, <<7, 6>>>>,
<<13005, 13005, <<4, 17, 6>>>>,
<<13006, 13006, <<4, 21>>>>,
<<13007, 13007, <<11, 19, 3>>>>,
<<13055, 13055, <<26, 26>>>>,
<<13056, 13058, <<26, 26, 26, 26>>>>,
<<13059, 13059, <<26, 26, 26>>>>,
<<13060, 13060, <<26, 26, 26, 26>>>>,
<<13061, 13062, <<26, 26, 26>>>>,
<<13063, 13063, <<26, 26, 26, 26, 26>>>>,
<<13064, 13064, <<26, 26, 26, 26>>>>,
<<13065, 13067, <<26, 26, 26>>>>,
<<13068, 13069, <<26, 26, 26, 26>>>>,
<<13070, 13071, <<26, 26, 26>>>>,
<<13072, 13072, <<26, 26>>>>,
<<13073, 13073, <<26, 26, 26>>>>,
<<13074, 13075, <<26, 26, 26, 26>>>>,
<<13076, 13076, <<26, 26>>>>,
<<13077, 13077, <<26, 26, 26, 26, 26>>>>,
<<13078, 13078, <<26, 26, 26, 26, 26, 26>>>>,
<<13079, 13079, <<26, 26, 26, 26, 26>>>>,
<<13080, 13080, <<26, 26, 26>>>>,
<<13081, 13082, <<26, 26, 26, 26, 26>>>>,
<<13083, 13083, <<26, 26, 26, 26>>>>,
<<13084, 13086, <<26, 26, 26>>>>,
<<13087, 13087, <<26, 26, 26, 26>>>>,
<<13088, 13088, <<26, 26, 26, 26, 26>>>>,
<<13089, 13089, <<26, 26, 26, 26>>>>,
<<13090, 13092, <<26, 26, 26>>>>,
<<13093, 13096, <<26, 26>>>>,
<<13097, 13098, <<26, 26, 26>>>>,
<<13099, 13099, <<26, 26, 26, 26, 26>>>>,
<<13100, 13100, <<26, 26, 26>>>>,
<<13101, 13101, <<26, 26, 26, 26>>>>,
<<13102, 13102, <<26, 26, 26, 26, 26>>>>,
<<13103, 13103, <<26, 26, 26>>>>,
<<13104, 13105, <<26, 26>>>>,
<<13106, 13106, <<26, 26, 26, 26, 26>>>>,
<<13107, 13107, <<26, 26, 26, 26>>>>,
<<13108, 13108, <<26, 26, 26, 26, 26>>>>,
<<13109, 13109, <<26, 26, 26>>>>,
<<13110, 13110, <<26, 26, 26, 26, 26>>>>,
<<13111, 13111, <<26, 26>>>>,
<<13112, 13116, <<26, 26, 26>>>>,
<<13117, 13117, <<26, 26, 26, 26>>>>,
<<13118, 13118, <<26, 26, 26>>>>,
<<13119, 13119, <<26, 26>>>>,
<<13120, 13122, <<26, 26, 26>>>>,
<<13123, 13123, <<26, 26, 26, 26>>>>,
<<13124, 13126, <<26, 26, 26>>>>,
<<13127, 13127, <<26, 26, 26, 26, 26>>>>,
<<13128, 13128, <<26, 26, 26, 26>>>>,
<<13129, 13129, <<26, 26>>>>,
<<13130, 13130, <<26, 26, 26, 26, 26>>>>,
<<13131, 13131, <<26, 26>>>>,
<<13132, 13133, <<26, 26, 26, 26>>>>,
<<13134, 13136, <<26, 26, 26>>>>,
<<13137, 13137, <<26, 26, 26, 26>>>>,
<<13138, 13138, <<26, 26>>>>,
<<13139, 13139, <<26, 26, 26>>>>,
<<13140, 13140, <<26, 26, 26, 26>>>>,
<<13141, 13141, <<26, 26>>>>,
<<13142, 13142, <<26, 26, 26, 26, 26>>>>,
<<13143, 13143, <<26, 26, 26>>>>,
<<13144, 13153, <<26, 26>>>>,
<<13154, 13168, <<26, 26, 26>>>>,
<<13169, 13169, <<7, 15, 0>>>>,
<<13170, 13170, <<3, 0>>>>,
<<13171, 13171, <<0, 20>>>>,
<<13172, 13172, <<1, 0, 17>>>>,
<<13173, 13173, <<14, 21>>>>,
<<13174, 13174, <<15, 2>>>>,
<<13175, 13175, <<3, 12>>>>,
<<13176, 13177, <<3, 12, 26>>>>,
<<13178, 13178, <<8, 20>>>>,
<<13179, 13182, <<26, 26>>>>,
<<13183, 13183, <<26, 26, 26, 26>>>>,
<<13184, 13184, <<15, 0>>>>,
<<13185, 13185, <<13, 0>>>>,
<<13186, 13186, <<26, 0>>>>,
<<13187, 13187, <<12, 0>>>>,
<<13188, 13188, <<10, 0>>>>,
<<13189, 13189, <<10, 1>>>>,
<<13190, 13190, <<12, 1>>>>,
<<13191, 13191, <<6, 1>>>>,
<<13192, 13192, <<2, 0, 11>>>>,
<<13193, 13193, <<10, 2, 0, 11>>>>,
<<13194, 13194, <<15, 5>>>>,
<<13195, 13195, <<13, 5>>>>,
<<13196, 13196, <<26, 5>>>>,
<<13197, 13197, <<26, 6>>>>,
<<13198, 13198, <<12, 6>>>>,
<<13199, 13199, <<10, 6>>>>,
<<13200, 13200, <<7, 25>>>>,
<<13201, 13201, <<10, 7, 25>>>>,
<<13202, 13202, <<12, 7, 25>>>>,
<<13203, 13203, <<6, 7, 25>>>>,
<<13204, 13204, <<19, 7, 25>>>>,
<<13205, 13205, <<26, 11>>>>,
<<13206, 13206, <<12, 11>>>>,
<<13207, 13207, <<3, 11>>>>,
<<13208, 13208, <<10, 11>>>>,
<<13209, 13209, <<5, 12>>>>,
<<13210, 13210, <<13, 12>>>>,
<<13211, 13211, <<26, 12>>>>,
<<13212, 13212, <<12, 12>>>>,
<<13213, 13213, <<2, 12>>>>,
<<13214, 13214, <<10, 12>>>>,
<<13215, 13215, <<12, 12, 26>>>>,
<<13216, 13216, <<2, 12, 26>>>>,
<<13217, 13217, <<12, 26>>>>,
<<13218, 13218, <<10, 12, 26>>>>,
<<13219, 13219, <<12, 12, 26>>>>,
<<13220, 13220, <<2, 12, 26>>>>,
<<13221, 13221, <<12, 26>>>>,
<<13222, 13222, <<10, 12, 26>>>>,
<<13223, 13223, <<12, 26, 18>>>>,
<<13224, 13224, <<12, 26, 18, 26>>>>,
<<13225, 13225, <<15, 0>>>>,
<<13226, 13226, <<10, 15, 0>>>>,
<<13227, 13227, <<12, 15, 0>>>>,
<<13228, 13228, <<6, 15, 0>>>>,
<<13229, 13229, <<17, 0, 3>>>>,
<<13230, 13230, <<17, 0, 3, 26, 18>>>>,
<<13231, 13231, <<17, 0, 3, 26, 18, 26>>>>,
<<13232, 13232, <<15, 18>>>>,
<<13233, 13233, <<13, 18>>>>,
<<13234, 13234, <<26, 18>>>>,
<<13235, 13235, <<12, 18>>>>,
<<13236, 13236, <<15, 21>>>>,
<<13237, 13237, <<13, 21>>>>,
<<13238, 13238, <<26, 21>>>>,
<<13239, 13239, <<12, 21>>>>,
<<13240, 13240, <<10, 21>>>>,
<<13241, 13241, <<12, 21>>>>,
<<13242, 13242, <<15, 22>>>>,
<<13243, 13243, <<13, 22>>>>,
<<13244, 13244, <<26, 22>>>>,
<<13245, 13245, <<12, 22>>>>,
<<13246, 13246, <<10, 22>>>>,
<<13247, 13247, <<12, 22>>>>,
<<13248, 13248, <<10, 26>>>>,
<<13249, 13249, <<12, 26>>>>,
<<13250, 13250, <<0, 26, 12, 26>>>>,
<<13251, 13251, <<1, 16>>>>,
<<13252, 13252, <<2, 2>>>>,
<<13253, 13253, <<2, 3>>>>,
<<13254, 13254, <<2, 26, 10, 6>>>>,
<<13255, 13255, <<2, 14, 26>>>>,
<<13256, 13256, <<3, 1>>>>,
<<13257, 13257, <<6, 24>>>>,
<<13258, 13258, <<7, 0>>>>,
<<13259, 13259, <<7, 15>>>>,
<<13260, 13260, <<8, 13>>>>,
<<13261, 13261, <<10, 10>>>>,
<<13262, 13262, <<10, 12>>>>,
<<13263, 13263, <<10, 19>>>>,
<<13264, 13264, <<11, 12>>>>,
<<13265, 13265, <<11, 13>>>>,
<<13266, 13266, <<11, 14, 6>>>>,
<<13267, 13267, <<11, 23>>>>,
<<13268, 13268, <<12, 1>>>>,
<<13269, 13269, <<12, 8, 11>>>>,
<<13270, 13270, <<12, 14, 11>>>>,
<<13271, 13271, <<15, 7>>>>,
<<13272, 13272, <<15, 26, 12, 26>>>>,
<<13273, 13273, <<15, 15, 12>>>>,
<<13274, 13274, <<15, 17>>>>,
<<13275, 13275, <<18, 17>>>>,
<<13276, 13276, <<18, 21>>>>,
<<13277, 13277, <<22, 1>>>>,
<<13278, 13278, <<21, 26, 12>>>>,
<<13279, 13279, <<0, 26, 12>>>>,
<<13280, 13288, <<26, 26>>>>,
<<13289, 13310, <<26, 26, 26>>>>,
<<13311, 13311, <<6, 0, 11>>>>,
<<42607, 42610, <<>>>>,
<<42612, 42621, <<>>>>,
<<42654, 42655, <<>>>>,
<<42736, 42737, <<>>>>,
<<43001, 43001, <<14, 4>>>>,
<<43010, 43010, <<>>>>,
<<43014, 43014, <<>>>>,
<<43019, 43019, <<>>>>,
<<43043, 43047, <<>>>>,
<<43052, 43052, <<>>>>,
<<43136, 43137, <<>>>>,
<<43188, 43205, <<>>>>,
<<43232, 43249, <<>>>>,
<<43263, 43263, <<>>>>,
<<43302, 43309, <<>>>>,
<<43335, 43347, <<>>>>,
<<43392, 43395, <<>>>>,
<<43443, 43456, <<>>>>,
<<43493, 43493, <<>>>>,
<<43561, 43574, <<>>>>,
<<43587, 43587, <<>>>>,
<<43596, 43597, <<>>>>,
<<43643, 43645, <<>>>>,
<<43696, 43696, <<>>>>,
<<43698, 43700, <<>>>>,
<<43703, 43704, <<>>>>,
<<43710, 43711, <<>>>>,
<<43713, 43713, <<>>>>,
<<43755, 43759, <<>>>>,
<<43765, 43766, <<>>>>,
<<44003, 44010, <<>>>>,
<<44012, 44013, <<>>>>,
<<64256, 64256, <<5, 5>>>>,
<<64257, 64257, <<5, 8>>>>,
<<64258, 64258, <<5, 11>>>>,
<<64259, 64259, <<5, 5, 8>>>>,
<<64260, 64260, <<5, 5, 11>>>>,
<<64261, 64262, <<18, 19>>>>,
<<64275, 64279, <<26, 26>>>>,
<<64286, 64286, <<>>>>,
<<64335, 64335, <<26, 26>>>>,
<<64477, 64477, <<26, 26>>>>,
<<64490, 64507, <<26, 26>>>>,
<<64512, 64602, <<26, 26>>>>,
<<64606, 64611, <<27>>>>,
<<64612, 64655, <<26, 26>>>>,
<<64657, 64728, <<26, 26>>>>,
<<64730, 64753, <<26, 26>>>>,
<<64757, 64827, <<26, 26>>>>,
<<64848, 64911, <<26, 26, 26>>>>,
<<64914, 64967, <<26, 26, 26>>>>,
<<65008, 65009, <<26, 26, 26>>>>,
<<65010, 65016, <<26, 26, 26, 26>>>>,
<<65017, 65017, <<26, 26, 26>>>>,
<<65018, 65018, <<26, 26, 26, 27, 26, 26, 26, 26, 27, 26, 26, 26, 26, 27, 26, 26, 26, 26>>>>,
<<65019, 65019, <<26, 26, 27, 26, 26, 26, 26, 26>>>>,
<<65020, 65020, <<26, 26, 26, 26>>>>,
<<65024, 65039, <<>>>>,
<<65049, 65049, <<26, 26, 26>>>>,
<<65056, 65071, <<>>>>,
<<65072, 65072, <<26, 26>>>>,
<<65075, 65076, <<27>>>>,
<<65097, 65103, <<27>>>>,
<<65136, 65136, <<27>>>>,
<<65138, 65138, <<27>>>>,
<<65140, 65140, <<27>>>>,
<<65142, 65142, <<27>>>>,
<<65144, 65144, <<27>>>>,
<<65146, 65146, <<27>>>>,
<<65148, 65148, <<27>>>>,
<<65150, 65150, <<27>>>>,
<<65269, 65276, <<26, 26>>>>,
<<65313, 65313, <<0>>>>,
<<65314, 65314, <<1>>>>,
<<65315, 65315, <<2>>>>,
<<65316, 65316, <<3>>>>,
<<65317, 65317, <<4>>>>,
<<65318, 65318, <<5>>>>,
<<65319, 65319, <<6>>>>,
<<65320, 65320, <<7>>>>,
<<65321, 65321, <<8>>>>,
<<65322, 65322, <<9>>>>,
<<65323, 65323, <<10>>>>,
<<65324, 65324, <<11>>>>,
<<65325, 65325, <<12>>>>,
<<65326, 65326, <<13>>>>,
<<65327, 65327, <<14>>>>,
<<65328, 65328, <<15>>>>,
<<65329, 65329, <<16>>>>,
<<65330, 65330, <<17>>>>,
<<65331, 65331, <<18>>>>,
<<65332, 65332, <<19>>>>,
<<65333, 65333, <<20>>>>,
<<65334, 65334, <<21>>>>,
<<65335, 65335, <<22>>>>,
<<65336, 65336, <<23>>>>,
<<65337, 65337, <<24>>>>,
<<65338, 65338, <<25>>>>,
<<65343, 65343, <<27>>>>,
<<65345, 65345, <<0>>>>,
<<65346, 65346, <<1>>>>,
<<65347, 65347, <<2>>>>,
<<65348, 65348, <<3>>>>,
<<65349, 65349, <<4>>>>,
<<65350, 65350, <<5>>>>,
<<65351, 65351, <<6>>>>,
<<65352, 65352, <<7>>>>,
<<65353, 65353, <<8>>>>,
<<65354, 65354, <<9>>>>,
<<65355, 65355, <<10>>>>,
<<65356, 65356, <<11>>>>,
<<65357, 65357, <<12>>>>,
<<65358, 65358, <<13>>>>,
<<65359, 65359, <<14>>>>,
<<65360, 65360, <<15>>>>,
<<65361, 65361, <<16>>>>,
<<65362, 65362, <<17>>>>,
<<65363, 65363, <<18>>>>,
<<65364, 65364, <<19>>>>,
<<65365, 65365, <<20>>>>,
<<65366, 65366, <<21>>>>,
<<65367, 65367, <<22>>>>,
<<65368, 65368, <<23>>>>,
<<65369, 65369, <<24>>>>,
<<65370, 65370, <<25>>>>,
<<65438, 65439, <<>>>>,
<<65507, 65507, <<27>>>>,
<<66045, 66045, <<>>>>,
<<66272, 66272, <<>>>>,
<<66422, 66426, <<>>>>,
<<68097, 68099, <<>>>>,
<<68101, 68102, <<>>>>,
<<68108, 68111, <<>>>>,
<<68152, 68154, <<>>>>,
<<68159, 68159, <<>>>>,
<<68325, 68326, <<>>>>,
<<68900, 68903, <<>>>>,
<<69291, 69292, <<>>>>,
<<69446, 69456, <<>>>>,
<<69632, 69634, <<>>>>,
<<69688, 69702, <<>>>>,
<<69759, 69762, <<>>>>,
<<69808, 69818, <<>>>>,
<<69888, 69890, <<>>>>,
<<69927, 69940, <<>>>>,
<<69957, 69958, <<>>>>,
<<70003, 70003, <<>>>>,
<<70016, 70018, <<>>>>,
<<70067, 70080, <<>>>>,
<<70089, 70092, <<>>>>,
<<70094, 70095, <<>>>>,
<<70188, 70199, <<>>>>,
<<70206, 70206, <<>>>>,
<<70367, 70378, <<>>>>,
<<70400, 70403, <<>>>>,
<<70459, 70460, <<>>>>,
<<70462, 70468, <<>>>>,
<<70471, 70472, <<>>>>,
<<70475, 70477, <<>>>>,
<<70487, 70487, <<>>>>,
<<70498, 70499, <<>>>>,
<<70502, 70508, <<>>>>,
<<70512, 70516, <<>>>>,
<<70709, 70726, <<>>>>,
<<70750, 70750, <<>>>>,
<<70832, 70851, <<>>>>,
<<71087, 71093, <<>>>>,
<<71096, 71104, <<>>>>,
<<71132, 71133, <<>>>>,
<<71216, 71232, <<>>>>,
<<71339, 71351, <<>>>>,
<<71453, 71467, <<>>>>,
<<71724, 71738, <<>>>>,
<<71984, 71989, <<>>>>,
<<71991, 71992, <<>>>>,
<<71995, 71998, <<>>>>,
<<72000, 72000, <<>>>>,
<<72002, 72003, <<>>>>,
<<72145, 72151, <<>>>>,
<<72154, 72160, <<>>>>,
<<72164, 72164, <<>>>>,
<<72193, 72202, <<>>>>,
<<72243, 72249, <<>>>>,
<<72251, 72254, <<>>>>,
<<72263, 72263, <<>>>>,
<<72273, 72283, <<>>>>,
<<72330, 72345, <<>>>>,
<<72751, 72758, <<>>>>,
<<72760, 72767, <<>>>>,
<<72850, 72871, <<>>>>,
<<72873, 72886, <<>>>>,
<<73009, 73014, <<>>>>,
<<73018, 73018, <<>>>>,
<<73020, 73021, <<>>>>,
<<73023, 73029, <<>>>>,
<<73031, 73031, <<>>>>,
<<73098, 73102, <<>>>>,
<<73104, 73105, <<>>>>,
<<73107, 73111, <<>>>>,
<<73459, 73462, <<>>>>,
<<92912, 92916, <<>>>>,
<<92976, 92982, <<>>>>,
<<94031, 94031, <<>>>>,
<<94033, 94087, <<>>>>,
<<94095, 94098, <<>>>>,
<<94180, 94180, <<>>>>,
<<94192, 94193, <<>>>>,
<<113821, 113822, <<>>>>,
<<119141, 119145, <<>>>>,
<<119149, 119154, <<>>>>,
<<119163, 119170, <<>>>>,
<<119173, 119179, <<>>>>,
<<119210, 119213, <<>>>>,
<<119362, 119364, <<>>>>,
<<119808, 119808, <<0>>>>,
<<119809, 119809, <<1>>>>,
<<119810, 119810, <<2>>>>,
<<119811, 119811, <<3>>>>,
<<119812, 119812, <<4>>>>,
<<119813, 119813, <<5>>>>,
<<119814, 119814, <<6>>>>,
<<119815, 119815, <<7>>>>,
<<119816, 119816, <<8>>>>,
<<119817, 119817, <<9>>>>,
<<119818, 119818, <<10>>>>,
<<119819, 119819, <<11>>>>,
<<119820, 119820, <<12>>>>,
<<119821, 119821, <<13>>>>,
<<119822, 119822, <<14>>>>,
<<119823, 119823, <<15>>>>,
<<119824, 119824, <<16>>>>,
<<119825, 119825, <<17>>>>,
<<119826, 119826, <<18>>>>,
<<119827, 119827, <<19>>>>,
<<119828, 119828, <<20>>>>,
<<119829, 119829, <<21>>>>,
<<119830, 119830, <<22>>>>,
<<119831, 119831, <<23>>>>,
<<119832, 119832, <<24>>>>,
<<119833, 119833, <<25>>>>,
<<119834, 119834, <<0>>>>,
<<119835, 119835, <<1>>>>,
<<119836, 119836, <<2>>>>,
<<119837, 119837, <<3>>>>,
<<119838, 119838, <<4>>>>,
<<119839, 119839, <<5>>>>,
<<119840, 119840, <<6>>>>,
<<119841, 119841, <<7>>>>,
<<119842, 119842, <<8>>>>,
<<119843, 119843, <<9>>>>,
<<119844, 119844, <<10>>>>,
<<119845, 119845, <<11>>>>,
<<119846, 119846, <<12>>>>,
<<119847, 119847, <<13>>>>,
<<119848, 119848, <<14>>>>,
<<119849, 119849, <<15>>>>,
<<119850, 119850, <<16>>>>,
<<119851, 119851, <<17>>>>,
<<119852, 119852, <<18>>>>,
<<119853, 119853, <<19>>>>,
<<119854, 119854, <<20>>>>,
<<119855, 119855, <<21>>>>,
<<119856, 119856, <<22>>>>,
<<119857, 119857, <<23>>>>,
<<119858, 119858, <<24>>>>,
<<119859, 119859, <<25>>>>,
<<119860, 119860, <<0>>>>,
<<119861, 119861, <<1>>>>,
<<119862, 119862, <<2>>>>,
<<119863, 119863, <<3>>>>,
<<119864, 119864, <<4>>>>,
<<119865, 119865, <<5>>>>,
<<119866, 119866, <<6>>>>,
<<119867, 119867, <<7>>>>,
<<119868, 119868, <<8>>>>,
<<119869, 119869, <<9>>>>,
<<119870, 119870, <<10>>>>,
<<119871, 119871, <<11>>>>,
<<119872, 119872, <<12>>>>,
<<119873, 119873, <<13>>>>,
<<119874, 119874, <<14>>>>,
<<119875, 119875, <<15>>>>,
<<119876, 119876, <<16>>>>,
<<119877, 119877, <<17>>>>,
<<119878, 119878, <<18>>>>,
<<119879, 119879, <<19>>>>,
<<119880, 119880, <<20>>>>,
<<119881, 119881, <<21>>>>,
<<119882, 119882, <<22>>>>,
<<119883, 119883, <<23>>>>,
<<119884, 119884, <<24>>>>,
<<119885, 119885, <<25>>>>,
<<119886, 119886, <<0>>>>,
<<119887, 119887, <<1>>>>,
<<119888, 119888, <<2>>>>,
<<119889, 119889, <<3>>>>,
<<119890, 119890, <<4>>>>,
<<119891, 119891, <<5>>>>,
<<119892, 119892, <<6>>>>,
<<119894, 119894, <<8>>>>,
<<119895, 119895, <<9>>>>,
<<119896, 119896, <<10>>>>,
<<119897, 119897, <<11>>>>,
<<119898, 119898, <<12>>>>,
<<119899, 119899, <<13>>>>,
<<119900, 119900, <<14>>>>,
<<119901, 119901, <<15>>>>,
<<119902, 119902, <<16>>>>,
<<119903, 119903, <<17>>>>,
<<119904, 119904, <<18>>>>,
<<119905, 119905, <<19>>>>,
<<119906, 119906, <<20>>>>,
<<119907, 119907, <<21>>>>,
<<119908, 119908, <<22>>>>,
<<119909, 119909, <<23>>>>,
<<119910, 119910, <<24>>>>,
<<119911, 119911, <<25>>>>,
<<119912, 119912, <<0>>>>,
<<119913, 119913, <<1>>>>,
<<119914, 119914, <<2>>>>,
<<119915, 119915, <<3>>>>,
<<119916, 119916, <<4>>>>,
<<119917, 119917, <<5>>>>,
<<119918, 119918, <<6>>>>,
<<119919, 119919, <<7>>>>,
<<119920, 119920, <<8>>>>,
<<119921, 119921, <<9>>>>,
<<119922, 119922, <<10>>>>,
<<119923, 119923, <<11>>>>,
<<119924, 119924, <<12>>>>,
<<119925, 119925, <<13>>>>,
<<119926, 119926, <<14>>>>,
<<119927, 119927, <<15>>>>,
<<119928, 119928, <<16>>>>,
<<119929, 119929, <<17>>>>,
<<119930, 119930, <<18>>>>,
<<119931, 119931, <<19>>>>,
<<119932, 119932, <<20>>>>,
<<119933, 119933, <<21>>>>,
<<119934, 119934, <<22>>>>,
<<119935, 119935, <<23>>>>,
<<119936, 119936, <<24>>>>,
<<119937, 119937, <<25>>>>,
<<119938, 119938, <<0>>>>,
<<119939, 119939, <<1>>>>,
<<119940, 119940, <<2>>>>,
<<119941, 119941, <<3>>>>,
<<119942, 119942, <<4>>>>,
<<119943, 119943, <<5>>>>,
<<119944, 119944, <<6>>>>,
<<119945, 119945, <<7>>>>,
<<119946, 119946, <<8>>>>,
<<119947, 119947, <<9>>>>,
<<119948, 119948, <<10>>>>,
<<119949, 119949, <<11>>>>,
<<119950, 119950, <<12>>>>,
<<119951, 119951, <<13>>>>,
<<119952, 119952, <<14>>>>,
<<119953, 119953, <<15>>>>,
<<119954, 119954, <<16>>>>,
<<119955, 119955, <<17>>>>,
<<119956, 119956, <<18>>>>,
<<119957, 119957, <<19>>>>,
<<119958, 119958, <<20>>>>,
<<119959, 119959, <<21>>>>,
<<119960, 119960, <<22>>>>,
<<119961, 119961, <<23>>>>,
<<119962, 119962, <<24>>>>,
<<119963, 119963, <<25>>>>,
<<119964, 119964, <<0>>>>,
<<119966, 119966, <<2>>>>,
<<119967, 119967, <<3>>>>,
<<119970, 119970, <<6>>>>,
<<119973, 119973, <<9>>>>,
<<119974, 119974, <<10>>>>,
<<119977, 119977, <<13>>>>,
<<119978, 119978, <<14>>>>,
<<119979, 119979, <<15>>>>,
<<119980, 119980, <<16>>>>,
<<119982, 119982, <<18>>>>,
<<119983, 119983, <<19>>>>,
<<119984, 119984, <<20>>>>,
<<119985, 119985, <<21>>>>,
<<119986, 119986, <<22>>>>,
<<119987, 119987, <<23>>>>,
<<119988, 119988, <<24>>>>,
<<119989, 119989, <<25>>>>,
<<119990, 119990, <<0>>>>,
<<119991, 119991, <<1>>>>,
<<119992, 119992, <<2>>>>,
<<119993, 119993, <<3>>>>,
<<119995, 119995, <<5>>>>,
<<119997, 119997, <<7>>>>,
<<119998, 119998, <<8>>>>,
<<119999, 119999, <<9>>>>,
<<120000, 120000, <<10>>>>,
<<120001, 120001, <<11>>>>,
<<120002, 120002, <<12>>>>,
<<120003, 120003, <<13>>>>,
<<120005, 120005, <<15>>>>,
<<120006, 120006, <<16>>>>,
<<120007, 120007, <<17>>>>,
<<120008, 120008, <<18>>>>,
<<120009, 120009, <<19>>>>,
<<120010, 120010, <<20>>>>,
<<120011, 120011, <<21>>>>,
<<120012, 120012, <<22>>>>,
<<120013, 120013, <<23>>>>,
<<120014, 120014, <<24>>>>,
<<120015, 120015, <<25>>>>,
<<120016, 120016, <<0>>>>,
<<120017, 120017, <<1>>>>,
<<120018, 120018, <<2>>>>,
<<120019, 120019, <<3>>>>,
<<120020, 120020, <<4>>>>,
<<120021, 120021, <<5>>>>,
<<120022, 120022, <<6>>>>,
<<120023, 120023, <<7>>>>,
<<120024, 120024, <<8>>>>,
<<120025, 120025, <<9>>>>,
<<120026, 120026, <<10>>>>,
<<120027, 120027, <<11>>>>,
<<120028, 120028, <<12>>>>,
<<120029, 120029, <<13>>>>,
<<120030, 120030, <<14>>>>,
<<120031, 120031, <<15>>>>,
<<120032, 120032, <<16>>>>,
<<120033, 120033, <<17>>>>,
<<120034, 120034, <<18>>>>,
<<120035, 120035, <<19>>>>,
<<120036, 120036, <<20>>>>,
<<120037, 120037, <<21>>>>,
<<120038, 120038, <<22>>>>,
<<120039, 120039, <<23>>>>,
<<120040, 120040, <<24>>>>,
<<120041, 120041, <<25>>>>,
<<120042, 120042, <<0>>>>,
<<120043, 120043, <<1>>>>,
<<120044, 120044, <<2>>>>,
<<120045, 120045, <<3>>>>,
<<120046, 120046, <<4>>>>,
<<120047, 120047, <<5>>>>,
<<120048, 120048, <<6>>>>,
<<120049, 120049, <<7>>>>,
<<120050, 120050, <<8>>>>,
<<120051, 120051, <<9>>>>,
<<120052, 120052, <<10>>>>,
<<120053, 120053, <<11>>>>,
<<120054, 120054, <<12>>>>,
<<120055, 120055, <<13>>>>,
<<120056, 120056, <<14>>>>,
<<120057, 120057, <<15>>>>,
<<120058, 120058, <<16>>>>,
<<120059, 120059, <<17>>>>,
<<120060, 120060, <<18>>>>,
<<120061, 120061, <<19>>>>,
<<120062, 120062, <<20>>>>,
<<120063, 120063, <<21>>>>,
<<120064, 120064, <<22>>>>,
<<120065, 120065, <<23>>>>,
<<120066, 120066, <<24>>>>,
<<120067, 120067, <<25>>>>,
<<120068, 120068, <<0>>>>,
<<120069, 120069, <<1>>>>,
<<120071, 120071, <<3>>>>,
<<120072, 120072, <<4>>>>,
<<120073, 120073, <<5>>>>,
<<120074, 120074, <<6>>>>,
<<120077, 120077, <<9>>>>,
<<120078, 120078, <<10>>>>,
<<120079, 120079, <<11>>>>,
<<120080, 120080, <<12>>>>,
<<120081, 120081, <<13>>>>,
<<120082, 120082, <<14>>>>,
<<120083, 120083, <<15>>>>,
<<120084, 120084, <<16>>>>,
<<120086, 120086, <<18>>>>,
<<120087, 120087, <<19>>>>,
<<120088, 120088, <<20>>>>,
<<120089, 120089, <<21>>>>,
<<120090, 120090, <<22>>>>,
<<120091, 120091, <<23>>>>,
<<120092, 120092, <<24>>>>,
<<120094, 120094, <<0>>>>,
<<120095, 120095, <<1>>>>,
<<120096, 120096, <<2>>>>,
<<120097, 120097, <<3>>>>,
<<120098, 120098, <<4>>>>,
<<120099, 120099, <<5>>>>,
<<120100, 120100, <<6>>>>,
<<120101, 120101, <<7>>>>,
<<120102, 120102, <<8>>>>,
<<120103, 120103, <<9>>>>,
<<120104, 120104, <<10>>>>,
<<120105, 120105, <<11>>>>,
<<120106, 120106, <<12>>>>,
<<120107, 120107, <<13>>>>,
<<120108, 120108, <<14>>>>,
<<120109, 120109, <<15>>>>,
<<120110, 120110, <<16>>>>,
<<120111, 120111, <<17>>>>,
<<120112, 120112, <<18>>>>,
<<120113, 120113, <<19>>>>,
<<120114, 120114, <<20>>>>,
<<120115, 120115, <<21>>>>,
<<120116, 120116, <<22>>>>,
<<120117, 120117, <<23>>>>,
<<120118, 120118, <<24>>>>,
<<120119, 120119, <<25>>>>,
<<120120, 120120, <<0>>>>,
<<120121, 120121, <<1>>>>,
<<120123, 120123, <<3>>>>,
<<120124, 120124, <<4>>>>,
<<120125, 120125, <<5>>>>,
<<120126, 120126, <<6>>>>,
<<120128, 120128, <<8>>>>,
<<120129, 120129, <<9>>>>,
<<120130, 120130, <<10>>>>,
<<120131, 120131, <<11>>>>,
<<120132, 120132, <<12>>>>,
<<120134, 120134, <<14>>>>,
<<120138, 120138, <<18>>>>,
<<120139, 120139, <<19>>>>,
<<120140, 120140, <<20>>>>,
<<120141, 120141, <<21>>>>,
<<120142, 120142, <<22>>>>,
<<120143, 120143, <<23>>>>,
<<120144, 120144, <<24>>>>,
<<120146, 120146, <<0>>>>,
<<120147, 120147, <<1>>>>,
<<120148, 120148, <<2>>>>,
<<120149, 120149, <<3>>>>,
<<120150, 120150, <<4>>>>,
<<120151, 120151, <<5>>>>,
<<120152, 120152, <<6>>>>,
<<120153, 120153, <<7>>>>,
<<120154, 120154, <<8>>>>,
<<120155, 120155, <<9>>>>,
<<120156, 120156, <<10>>>>,
<<120157, 120157, <<11>>>>,
<<120158, 120158, <<12>>>>,
<<120159, 120159, <<13>>>>,
<<120160, 120160, <<14>>>>,
<<120161, 120161, <<15>>>>,
<<120162, 120162, <<16>>>>,
<<120163, 120163, <<17>>>>,
<<120164, 120164, <<18>>>>,
<<120165, 120165, <<19>>>>,
<<120166, 120166, <<20>>>>,
<<120167, 120167, <<21>>>>,
<<120168, 120168, <<22>>>>,
<<120169, 120169, <<23>>>>,
<<120170, 120170, <<24>>>>,
<<120171, 120171, <<25>>>>,
<<120172, 120172, <<0>>>>,
<<120173, 120173, <<1>>>>,
<<120174, 120174, <<2>>>>,
<<120175, 120175, <<3>>>>,
<<120176, 120176, <<4>>>>,
<<120177, 120177, <<5>>>>,
<<120178, 120178, <<6>>>>,
<<120179, 120179, <<7>>>>,
<<120180, 120180, <<8>>>>,
<<120181, 120181, <<9>>>>,
<<120182, 120182, <<10>>>>,
<<120183, 120183, <<11>>>>,
<<120184, 120184, <<12>>>>,
<<120185, 120185, <<13>>>>,
<<120186, 120186, <<14>>>>,
<<120187, 120187, <<15>>>>,
<<120188, 120188, <<16>>>>,
<<120189, 120189, <<17>>>>,
<<120190, 120190, <<18>>>>,
<<120191, 120191, <<19>>>>,
<<120192, 120192, <<20>>>>,
<<120193, 120193, <<21>>>>,
<<120194, 120194, <<22>>>>,
<<120195, 120195, <<23>>>>,
<<120196, 120196, <<24>>>>,
<<120197, 120197, <<25>>>>,
<<120198, 120198, <<0>>>>,
<<120199, 120199, <<1>>>>,
<<120200, 120200, <<2>>>>,
<<120201, 120201, <<3>>>>,
<<120202, 120202, <<4>>>>,
<<120203, 120203, <<5>>>>,
<<120204, 120204, <<6>>>>,
<<120205, 120205, <<7>>>>,
<<120206, 120206, <<8>>>>,
<<120207, 120207, <<9>>>>,
<<120208, 120208, <<10>>>>,
<<120209, 120209, <<11>>>>,
<<120210, 120210, <<12>>>>,
<<120211, 120211, <<13>>>>,
<<120212, 120212, <<14>>>>,
<<120213, 120213, <<15>>>>,
<<120214, 120214, <<16>>>>,
<<120215, 120215, <<17>>>>,
<<120216, 120216, <<18>>>>,
<<120217, 120217, <<19>>>>,
<<120218, 120218, <<20>>>>,
<<120219, 120219, <<21>>>>,
<<120220, 120220, <<22>>>>,
<<120221, 120221, <<23>>>>,
<<120222, 120222, <<24>>>>,
<<120223, 120223, <<25>>>>,
<<120224, 120224, <<0>>>>,
<<120225, 120225, <<1>>>>,
<<120226, 120226, <<2>>>>,
<<120227, 120227, <<3>>>>,
<<120228, 120228, <<4>>>>,
<<120229, 120229, <<5>>>>,
<<120230, 120230, <<6>>>>,
<<120231, 120231, <<7>>>>,
<<120232, 120232, <<8>>>>,
<<120233, 120233, <<9>>>>,
<<120234, 120234, <<10>>>>,
<<120235, 120235, <<11>>>>,
<<120236, 120236, <<12>>>>,
<<120237, 120237, <<13>>>>,
<<120238, 120238, <<14>>>>,
<<120239, 120239, <<15>>>>,
<<120240, 120240, <<16>>>>,
<<120241, 120241, <<17>>>>,
<<120242, 120242, <<18>>>>,
<<120243, 120243, <<19>>>>,
<<120244, 120244, <<20>>>>,
<<120245, 120245, <<21>>>>,
<<120246, 120246, <<22>>>>,
<<120247, 120247, <<23>>>>,
<<120248, 120248, <<24>>>>,
<<120249, 120249, <<25>>>>,
<<120250, 120250, <<0>>>>,
<<120251, 120251, <<1>>>>,
<<120252, 120252, <<2>>>>,
<<120253, 120253, <<3>>>>,
<<120254, 120254, <<4>>>>,
<<120255, 120255, <<5>>>>,
<<120256, 120256, <<6>>>>,
<<120257, 120257, <<7>>>>,
<<120258, 120258, <<8>>>>,
<<120259, 120259, <<9>>>>,
<<120260, 120260, <<10>>>>,
<<120261, 120261, <<11>>>>,
<<120262, 120262, <<12>>>>,
<<120263, 120263, <<13>>>>,
<<120264, 120264, <<14>>>>,
<<120265, 120265, <<15>>>>,
<<120266, 120266, <<16>>>>,
<<120267, 120267, <<17>>>>,
<<120268, 120268, <<18>>>>,
<<120269, 120269, <<19>>>>,
<<120270, 120270, <<20>>>>,
<<120271, 120271, <<21>>>>,
<<120272, 120272, <<22>>>>,
<<120273, 120273, <<23>>>>,
<<120274, 120274, <<24>>>>,
<<120275, 120275, <<25>>>>,
<<120276, 120276, <<0>>>>,
<<120277, 120277, <<1>>>>,
<<120278, 120278, <<2>>>>,
<<120279, 120279, <<3>>>>,
<<120280, 120280, <<4>>>>,
<<120281, 120281, <<5>>>>,
<<120282, 120282, <<6>>>>,
<<120283, 120283, <<7>>>>,
<<120284, 120284, <<8>>>>,
<<120285, 120285, <<9>>>>,
<<120286, 120286, <<10>>>>,
<<120287, 120287, <<11>>>>,
<<120288, 120288, <<12>>>>,
<<120289, 120289, <<13>>>>,
<<120290, 120290, <<14>>>>,
<<120291, 120291, <<15>>>>,
<<120292, 120292, <<16>>>>,
<<120293, 120293, <<17>>>>,
<<120294, 120294, <<18>>>>,
<<120295, 120295, <<19>>>>,
<<120296, 120296, <<20>>>>,
<<120297, 120297, <<21>>>>,
<<120298, 120298, <<22>>>>,
<<120299, 120299, <<23>>>>,
<<120300, 120300, <<24>>>>,
<<120301, 120301, <<25>>>>,
<<120302, 120302, <<0>>>>,
<<120303, 120303, <<1>>>>,
<<120304, 120304, <<2>>>>,
<<120305, 120305, <<3>>>>,
<<120306, 120306, <<4>>>>,
<<120307, 120307, <<5>>>>,
<<120308, 120308, <<6>>>>,
<<120309, 120309, <<7>>>>,
<<120310, 120310, <<8>>>>,
<<120311, 120311, <<9>>>>,
<<120312, 120312, <<10>>>>,
<<120313, 120313, <<11>>>>,
<<120314, 120314, <<12>>>>,
<<120315, 120315, <<13>>>>,
<<120316, 120316, <<14>>>>,
<<120317, 120317, <<15>>>>,
<<120318, 120318, <<16>>>>,
<<120319, 120319, <<17>>>>,
<<120320, 120320, <<18>>>>,
<<120321, 120321, <<19>>>>,
<<120322, 120322, <<20>>>>,
<<120323, 120323, <<21>>>>,
<<120324, 120324, <<22>>>>,
<<120325, 120325, <<23>>>>,
<<120326, 120326, <<24>>>>,
<<120327, 120327, <<25>>>>,
<<120328, 120328, <<0>>>>,
<<120329, 120329, <<1>>>>,
<<120330, 120330, <<2>>>>,
<<120331, 120331, <<3>>>>,
<<120332, 120332, <<4>>>>,
<<120333, 120333, <<5>>>>,
<<120334, 120334, <<6>>>>,
<<120335, 120335, <<7>>>>,
<<120336, 120336, <<8>>>>,
<<120337, 120337, <<9>>>>,
<<120338, 120338, <<10>>>>,
<<120339, 120339, <<11>>>>,
<<120340, 120340, <<12>>>>,
<<120341, 120341, <<13>>>>,
<<120342, 120342, <<14>>>>,
<<120343, 120343, <<15>>>>,
<<120344, 120344, <<16>>>>,
<<120345, 120345, <<17>>>>,
<<120346, 120346, <<18>>>>,
<<120347, 120347, <<19>>>>,
<<120348, 120348, <<20>>>>,
<<120349, 120349, <<21>>>>,
<<120350, 120350, <<22>>>>,
<<120351, 120351, <<23>>>>,
<<120352, 120352, <<24>>>>,
<<120353, 120353, <<25>>>>,
<<120354, 120354, <<0>>>>,
<<120355, 120355, <<1>>>>,
<<120356, 120356, <<2>>>>,
<<120357, 120357, <<3>>>>,
<<120358, 120358, <<4>>>>,
<<120359, 120359, <<5>>>>,
<<120360, 120360, <<6>>>>,
<<120361, 120361, <<7>>>>,
<<120362, 120362, <<8>>>>,
<<120363, 120363, <<9>>>>,
<<120364, 120364, <<10>>>>,
<<120365, 120365, <<11>>>>,
<<120366, 120366, <<12>>>>,
<<120367, 120367, <<13>>>>,
<<120368, 120368, <<14>>>>,
<<120369, 120369, <<15>>>>,
<<120370, 120370, <<16>>>>,
<<120371, 120371, <<17>>>>,
<<120372, 120372, <<18>>>>,
<<120373, 120373, <<19>>>>,
<<120374, 120374, <<20>>>>,
<<120375, 120375, <<21>>>>,
<<120376, 120376, <<22>>>>,
<<120377, 120377, <<23>>>>,
<<120378, 120378, <<24>>>>,
<<120379, 120379, <<25>>>>,
<<120380, 120380, <<0>>>>,
<<120381, 120381, <<1>>>>,
<<120382, 120382, <<2>>>>,
<<120383, 120383, <<3>>>>,
<<120384, 120384, <<4>>>>,
<<120385, 120385, <<5>>>>,
<<120386, 120386, <<6>>>>,
<<120387, 120387, <<7>>>>,
<<120388, 120388, <<8>>>>,
<<120389, 120389, <<9>>>>,
<<120390, 120390, <<10>>>>,
<<120391, 120391, <<11>>>>,
<<120392, 120392, <<12>>>>,
<<120393, 120393, <<13>>>>,
<<120394, 120394, <<14>>>>,
<<120395, 120395, <<15>>>>,
<<120396, 120396, <<16>>>>,
<<120397, 120397, <<17>>>>,
<<120398, 120398, <<18>>>>,
<<120399, 120399, <<19>>>>,
<<120400, 120400, <<20>>>>,
<<120401, 120401, <<21>>>>,
<<120402, 120402, <<22>>>>,
<<120403, 120403, <<23>>>>,
<<120404, 120404, <<24>>>>,
<<120405, 120405, <<25>>>>,
<<120406, 120406, <<0>>>>,
<<120407, 120407, <<1>>>>,
<<120408, 120408, <<2>>>>,
<<120409, 120409, <<3>>>>,
<<120410, 120410, <<4>>>>,
<<120411, 120411, <<5>>>>,
<<120412, 120412, <<6>>>>,
<<120413, 120413, <<7>>>>,
<<120414, 120414, <<8>>>>,
<<120415, 120415, <<9>>>>,
<<120416, 120416, <<10>>>>,
<<120417, 120417, <<11>>>>,
<<120418, 120418, <<12>>>>,
<<120419, 120419, <<13>>>>,
<<120420, 120420, <<14>>>>,
<<120421, 120421, <<15>>>>,
<<120422, 120422, <<16>>>>,
<<120423, 120423, <<17>>>>,
<<120424, 120424, <<18>>>>,
<<120425, 120425, <<19>>>>,
<<120426, 120426, <<20>>>>,
<<120427, 120427, <<21>>>>,
<<120428, 120428, <<22>>>>,
<<120429, 120429, <<23>>>>,
<<120430, 120430, <<24>>>>,
<<120431, 120431, <<25>>>>,
<<120432, 120432, <<0>>>>,
<<120433, 120433, <<1>>>>,
<<120434, 120434, <<2>>>>,
<<120435, 120435, <<3>>>>,
<<120436, 120436, <<4>>>>,
<<120437, 120437, <<5>>>>,
<<120438, 120438, <<6>>>>,
<<120439, 120439, <<7>>>>,
<<120440, 120440, <<8>>>>,
<<120441, 120441, <<9>>>>,
<<120442, 120442, <<10>>>>,
<<120443, 120443, <<11>>>>,
<<120444, 120444, <<12>>>>,
<<120445, 120445, <<13>>>>,
<<120446, 120446, <<14>>>>,
<<120447, 120447, <<15>>>>,
<<120448, 120448, <<16>>>>,
<<120449, 120449, <<17>>>>,
<<120450, 120450, <<18>>>>,
<<120451, 120451, <<19>>>>,
<<120452, 120452, <<20>>>>,
<<120453, 120453, <<21>>>>,
<<120454, 120454, <<22>>>>,
<<120455, 120455, <<23>>>>,
<<120456, 120456, <<24>>>>,
<<120457, 120457, <<25>>>>,
<<120458, 120458, <<0>>>>,
<<120459, 120459, <<1>>>>,
<<120460, 120460, <<2>>>>,
<<120461, 120461, <<3>>>>,
<<120462, 120462, <<4>>>>,
<<120463, 120463, <<5>>>>,
<<120464, 120464, <<6>>>>,
<<120465, 120465, <<7>>>>,
<<120466, 120466, <<8>>>>,
<<120467, 120467, <<9>>>>,
<<120468, 120468, <<10>>>>,
<<120469, 120469, <<11>>>>,
<<120470, 120470, <<12>>>>,
<<120471, 120471, <<13>>>>,
<<120472, 120472, <<14>>>>,
<<120473, 120473, <<15>>>>,
<<120474, 120474, <<16>>>>,
<<120475, 120475, <<17>>>>,
<<120476, 120476, <<18>>>>,
<<120477, 120477, <<19>>>>,
<<120478, 120478, <<20>>>>,
<<120479, 120479, <<21>>>>,
<<120480, 120480, <<22>>>>,
<<120481, 120481, <<23>>>>,
<<120482, 120482, <<24>>>>,
<<120483, 120483, <<25>>>>,
<<120484, 120484, <<8>>>>,
<<121344, 121398, <<>>>>,
<<121403, 121452, <<>>>>,
<<121461, 121461, <<>>>>,
<<121476, 121476, <<>>>>,
<<121499, 121503, <<>>>>,
<<121505, 121519, <<>>>>,
<<122880, 122886, <<>>>>,
<<122888, 122904, <<>>>>,
<<122907, 122913, <<>>>>,
<<122915, 122916, <<>>>>,
<<122918, 122922, <<>>>>,
<<123184, 123190, <<>>>>,
<<123628, 123631, <<>>>>,
<<125136, 125142, <<>>>>,
<<125252, 125258, <<>>>>,
<<127232, 127242, <<26, 26>>>>,
<<127248, 127248, <<26, 0, 26>>>>,
<<127249, 127249, <<26, 1, 26>>>>,
<<127250, 127250, <<26, 2, 26>>>>,
<<127251, 127251, <<26, 3, 26>>>>,
<<127252, 127252, <<26, 4, 26>>>>,
<<127253, 127253, <<26, 5, 26>>>>,
<<127254, 127254, <<26, 6, 26>>>>,
<<127255, 127255, <<26, 7, 26>>>>,
<<127256, 127256, <<26, 8, 26>>>>,
<<127257, 127257, <<26, 9, 26>>>>,
<<127258, 127258, <<26, 10, 26>>>>,
<<127259, 127259, <<26, 11, 26>>>>,
<<127260, 127260, <<26, 12, 26>>>>,
<<127261, 127261, <<26, 13, 26>>>>,
<<127262, 127262, <<26, 14, 26>>>>,
<<127263, 127263, <<26, 15, 26>>>>,
<<127264, 127264, <<26, 16, 26>>>>,
<<127265, 127265, <<26, 17, 26>>>>,
<<127266, 127266, <<26, 18, 26>>>>,
<<127267, 127267, <<26, 19, 26>>>>,
<<127268, 127268, <<26, 20, 26>>>>,
<<127269, 127269, <<26, 21, 26>>>>,
<<127270, 127270, <<26, 22, 26>>>>,
<<127271, 127271, <<26, 23, 26>>>>,
<<127272, 127272, <<26, 24, 26>>>>,
<<127273, 127273, <<26, 25, 26>>>>,
<<127274, 127274, <<26, 18, 26>>>>,
<<127275, 127275, <<2>>>>,
<<127276, 127276, <<17>>>>,
<<127277, 127277, <<2, 3>>>>,
<<127278, 127278, <<22, 25>>>>,
<<127280, 127280, <<0>>>>,
<<127281, 127281, <<1>>>>,
<<127282, 127282, <<2>>>>,
<<127283, 127283, <<3>>>>,
<<127284, 127284, <<4>>>>,
<<127285, 127285, <<5>>>>,
<<127286, 127286, <<6>>>>,
<<127287, 127287, <<7>>>>,
<<127288, 127288, <<8>>>>,
<<127289, 127289, <<9>>>>,
<<127290, 127290, <<10>>>>,
<<127291, 127291, <<11>>>>,
<<127292, 127292, <<12>>>>,
<<127293, 127293, <<13>>>>,
<<127294, 127294, <<14>>>>,
<<127295, 127295, <<15>>>>,
<<127296, 127296, <<16>>>>,
<<127297, 127297, <<17>>>>,
<<127298, 127298, <<18>>>>,
<<127299, 127299, <<19>>>>,
<<127300, 127300, <<20>>>>,
<<127301, 127301, <<21>>>>,
<<127302, 127302, <<22>>>>,
<<127303, 127303, <<23>>>>,
<<127304, 127304, <<24>>>>,
<<127305, 127305, <<25>>>>,
<<127306, 127306, <<7, 21>>>>,
<<127307, 127307, <<12, 21>>>>,
<<127308, 127308, <<18, 3>>>>,
<<127309, 127309, <<18, 18>>>>,
<<127310, 127310, <<15, 15, 21>>>>,
<<127311, 127311, <<22, 2>>>>,
<<127338, 127338, <<12, 2>>>>,
<<127339, 127339, <<12, 3>>>>,
<<127340, 127340, <<12, 17>>>>,
<<127376, 127376, <<3, 9>>>>,
<<127488, 127489, <<26, 26>>>>,
<<127552, 127560, <<26, 26, 26>>>>,
<<917760, 917999, <<>>>>
>>
RECURSIVE CharFind(_, _, _)
\* Binary search for c among the rows lo..hi
CharFind(c, lo, hi) ==
    IF c \in 44032..55203 THEN IF (c - 44032) % 28 = 0 THEN <<26, 26>> ELSE <<26, 26, 26>>
    ELSE IF lo > hi THEN <<26>>
    ELSE LET m == (lo + hi) \div 2 IN
         IF c > CharRows[m][2] THEN CharFind(c, m + 1, hi)
         ELSE IF c < CharRows[m][1] THEN CharFind(c, lo, m - 1) ELSE CharRows[m][3]
\* The code points which the table is about
Assigned == <<
<<0, 887>>,
<<890, 895>>,
<<900, 906>>,
<<908, 908>>,
<<910, 929>>,
<<931, 1327>>,
<<1329, 1366>>,
<<1369, 1418>>,
<<1421, 1423>>,
<<1425, 1479>>,
<<1488, 1514>>,
<<1519, 1524>>,
<<1536, 1564>>,
<<1566, 1805>>,
<<1807, 1866>>,
<<1869, 1969>>,
<<1984, 2042>>,
<<2045, 2093>>,
<<2096, 2110>>,
<<2112, 2139>>,
<<2142, 2142>>,
<<2144, 2154>>,
<<2208, 2228>>,
<<2230, 2247>>,
<<2259, 2435>>,
<<2437, 2444>>,
<<2447, 2448>>,
<<2451, 2472>>,
<<2474, 2480>>,
<<2482, 2482>>,
<<2486, 2489>>,
<<2492, 2500>>,
<<2503, 2504>>,
<<2507, 2510>>,
<<2519, 2519>>,
<<2524, 2525>>,
<<2527, 2531>>,
<<2534, 2558>>,
<<2561, 2563>>,
<<2565, 2570>>,
<<2575, 2576>>,
<<2579, 2600>>,
<<2602, 2608>>,
<<2610, 2611>>,
<<2613, 2614>>,
<<2616, 2617>>,
<<2620, 2620>>,
<<2622, 2626>>,
<<2631, 2632>>,
<<2635, 2637>>,
<<2641, 2641>>,
<<2649, 2652>>,
<<2654, 2654>>,
<<2662, 2678>>,
<<2689, 2691>>,
<<2693, 2701>>,
<<2703, 2705>>,
<<2707, 2728>>,
<<2730, 2736>>,
<<2738, 2739>>,
<<2741, 2745>>,
<<2748, 2757>>,
<<2759, 2761>>,
<<2763, 2765>>,
<<2768, 2768>>,
<<2784, 2787>>,
<<2790, 2801>>,
<<2809, 2815>>,
<<2817, 2819>>,
<<2821, 2828>>,
<<2831, 2832>>,
<<2835, 2856>>,
<<2858, 2864>>,
<<2866, 2867>>,
<<2869, 2873>>,
<<2876, 2884>>,
<<2887, 2888>>,
<<2891, 2893>>,
<<2901, 2903>>,
<<2908, 2909>>,
<<2911, 2915>>,
<<2918, 2935>>,
<<2946, 2947>>,
<<2949, 2954>>,
<<2958, 2960>>,
<<2962, 2965>>,
<<2969, 2970>>,
<<2972, 2972>>,
<<2974, 2975>>,
<<2979, 2980>>,
<<2984, 2986>>,
<<2990, 3001>>,
<<3006, 3010>>,
<<3014, 3016>>,
<<3018, 3021>>,
<<3024, 3024>>,
<<3031, 3031>>,
<<3046, 3066>>,
<<3072, 3084>>,
<<3086, 3088>>,
<<3090, 3112>>,
<<3114, 3129>>,
<<3133, 3140>>,
<<3142, 3144>>,
<<3146, 3149>>,
<<3157, 3158>>,
<<3160, 3162>>,
<<3168, 3171>>,
<<3174, 3183>>,
<<3191, 3212>>,
<<3214, 3216>>,
<<3218, 3240>>,
<<3242, 3251>>,
<<3253, 3257>>,
<<3260, 3268>>,
<<3270, 3272>>,
<<3274, 3277>>,
<<3285, 3286>>,
<<3294, 3294>>,
<<3296, 3299>>,
<<3302, 3311>>,
<<3313, 3314>>,
<<3328, 3340>>,
<<3342, 3344>>,
<<3346, 3396>>,
<<3398, 3400>>,
<<3402, 3407>>,
<<3412, 3427>>,
<<3430, 3455>>,
<<3457, 3459>>,
<<3461, 3478>>,
<<3482, 3505>>,
<<3507, 3515>>,
<<3517, 3517>>,
<<3520, 3526>>,
<<3530, 3530>>,
<<3535, 3540>>,
<<3542, 3542>>,
<<3544, 3551>>,
<<3558, 3567>>,
<<3570, 3572>>,
<<3585, 3642>>,
<<3647, 3675>>,
<<3713, 3714>>,
<<3716, 3716>>,
<<3718, 3722>>,
<<3724, 3747>>,
<<3749, 3749>>,
<<3751, 3773>>,
<<3776, 3780>>,
<<3782, 3782>>,
<<3784, 3789>>,
<<3792, 3801>>,
<<3804, 3807>>,
<<3840, 3911>>,
<<3913, 3948>>,
<<3953, 3991>>,
<<3993, 4028>>,
<<4030, 4044>>,
<<4046, 4058>>,
<<4096, 4293>>,
<<4295, 4295>>,
<<4301, 4301>>,
<<4304, 4680>>,
<<4682, 4685>>,
<<4688, 4694>>,
<<4696, 4696>>,
<<4698, 4701>>,
<<4704, 4744>>,
<<4746, 4749>>,
<<4752, 4784>>,
<<4786, 4789>>,
<<4792, 4798>>,
<<4800, 4800>>,
<<4802, 4805>>,
<<4808, 4822>>,
<<4824, 4880>>,
<<4882, 4885>>,
<<4888, 4954>>,
<<4957, 4988>>,
<<4992, 5017>>,
<<5024, 5109>>,
<<5112, 5117>>,
<<5120, 5788>>,
<<5792, 5880>>,
<<5888, 5900>>,
<<5902, 5908>>,
<<5920, 5942>>,
<<5952, 5971>>,
<<5984, 5996>>,
<<5998, 6000>>,
<<6002, 6003>>,
<<6016, 6109>>,
<<6112, 6121>>,
<<6128, 6137>>,
<<6144, 6158>>,
<<6160, 6169>>,
<<6176, 6264>>,
<<6272, 6314>>,
<<6320, 6389>>,
<<6400, 6430>>,
<<6432, 6443>>,
<<6448, 6459>>,
<<6464, 6464>>,
<<6468, 6509>>,
<<6512, 6516>>,
<<6528, 6571>>,
<<6576, 6601>>,
<<6608, 6618>>,
<<6622, 6683>>,
<<6686, 6750>>,
<<6752, 6780>>,
<<6783, 6793>>,
<<6800, 6809>>,
<<6816, 6829>>,
<<6832, 6848>>,
<<6912, 6987>>,
<<6992, 7036>>,
<<7040, 7155>>,
<<7164, 7223>>,
<<7227, 7241>>,
<<7245, 7304>>,
<<7312, 7354>>,
<<7357, 7367>>,
<<7376, 7418>>,
<<7424, 7673>>,
<<7675, 7957>>,
<<7960, 7965>>,
<<7968, 8005>>,
<<8008, 8013>>,
<<8016, 8023>>,
<<8025, 8025>>,
<<8027, 8027>>,
<<8029, 8029>>,
<<8031, 8061>>,
<<8064, 8116>>,
<<8118, 8132>>,
<<8134, 8147>>,
<<8150, 8155>>,
<<8157, 8175>>,
<<8178, 8180>>,
<<8182, 8190>>,
<<8192, 8292>>,
<<8294, 8305>>,
<<8308, 8334>>,
<<8336, 8348>>,
<<8352, 8383>>,
<<8400, 8432>>,
<<8448, 8587>>,
<<8592, 9254>>,
<<9280, 9290>>,
<<9312, 11123>>,
<<11126, 11157>>,
<<11159, 11310>>,
<<11312, 11358>>,
<<11360, 11507>>,
<<11513, 11557>>,
<<11559, 11559>>,
<<11565, 11565>>,
<<11568, 11623>>,
<<11631, 11632>>,
<<11647, 11670>>,
<<11680, 11686>>,
<<11688, 11694>>,
<<11696, 11702>>,
<<11704, 11710>>,
<<11712, 11718>>,
<<11720, 11726>>,
<<11728, 11734>>,
<<11736, 11742>>,
<<11744, 11858>>,
<<11904, 11929>>,
<<11931, 12019>>,
<<12032, 12245>>,
<<12272, 12283>>,
<<12288, 12351>>,
<<12353, 12438>>,
<<12441, 12543>>,
<<12549, 12591>>,
<<12593, 12686>>,
<<12688, 12771>>,
<<12784, 12830>>,
<<12832, 40956>>,
<<40960, 42124>>,
<<42128, 42182>>,
<<42192, 42539>>,
<<42560, 42743>>,
<<42752, 42943>>,
<<42946, 42954>>,
<<42997, 43052>>,
<<43056, 43065>>,
<<43072, 43127>>,
<<43136, 43205>>,
<<43214, 43225>>,
<<43232, 43347>>,
<<43359, 43388>>,
<<43392, 43469>>,
<<43471, 43481>>,
<<43486, 43518>>,
<<43520, 43574>>,
<<43584, 43597>>,
<<43600, 43609>>,
<<43612, 43714>>,
<<43739, 43766>>,
<<43777, 43782>>,
<<43785, 43790>>,
<<43793, 43798>>,
<<43808, 43814>>,
<<43816, 43822>>,
<<43824, 43883>>,
<<43888, 44013>>,
<<44016, 44025>>,
<<44032, 55203>>,
<<55216, 55238>>,
<<55243, 55291>>,
<<57344, 64109>>,
<<64112, 64217>>,
<<64256, 64262>>,
<<64275, 64279>>,
<<64285, 64310>>,
<<64312, 64316>>,
<<64318, 64318>>,
<<64320, 64321>>,
<<64323, 64324>>,
<<64326, 64449>>,
<<64467, 64831>>,
<<64848, 64911>>,
<<64914, 64967>>,
<<64976, 65021>>,
<<65024, 65049>>,
<<65056, 65106>>,
<<65108, 65126>>,
<<65128, 65131>>,
<<65136, 65140>>,
<<65142, 65276>>,
<<65279, 65279>>,
<<65281, 65470>>,
<<65474, 65479>>,
<<65482, 65487>>,
<<65490, 65495>>,
<<65498, 65500>>,
<<65504, 65510>>,
<<65512, 65518>>,
<<65529, 65547>>,
<<65549, 65574>>,
<<65576, 65594>>,
<<65596, 65597>>,
<<65599, 65613>>,
<<65616, 65629>>,
<<65664, 65786>>,
<<65792, 65794>>,
<<65799, 65843>>,
<<65847, 65934>>,
<<65936, 65948>>,
<<65952, 65952>>,
<<66000, 66045>>,
<<66176, 66204>>,
<<66208, 66256>>,
<<66272, 66299>>,
<<66304, 66339>>,
<<66349, 66378>>,
<<66384, 66426>>,
<<66432, 66461>>,
<<66463, 66499>>,
<<66504, 66517>>,
<<66560, 66717>>,
<<66720, 66729>>,
<<66736, 66771>>,
<<66776, 66811>>,
<<66816, 66855>>,
<<66864, 66915>>,
<<66927, 66927>>,
<<67072, 67382>>,
<<67392, 67413>>,
<<67424, 67431>>,
<<67584, 67589>>,
<<67592, 67592>>,
<<67594, 67637>>,
<<67639, 67640>>,
<<67644, 67644>>,
<<67647, 67669>>,
<<67671, 67742>>,
<<67751, 67759>>,
<<67808, 67826>>,
<<67828, 67829>>,
<<67835, 67867>>,
<<67871, 67897>>,
<<67903, 67903>>,
<<67968, 68023>>,
<<68028, 68047>>,
<<68050, 68099>>,
<<68101, 68102>>,
<<68108, 68115>>,
<<68117, 68119>>,
<<68121, 68149>>,
<<68152, 68154>>,
<<68159, 68168>>,
<<68176, 68184>>,
<<68192, 68255>>,
<<68288, 68326>>,
<<68331, 68342>>,
<<68352, 68405>>,
<<68409, 68437>>,
<<68440, 68466>>,
<<68472, 68497>>,
<<68505, 68508>>,
<<68521, 68527>>,
<<68608, 68680>>,
<<68736, 68786>>,
<<68800, 68850>>,
<<68858, 68903>>,
<<68912, 68921>>,
<<69216, 69246>>,
<<69248, 69289>>,
<<69291, 69293>>,
<<69296, 69297>>,
<<69376, 69415>>,
<<69424, 69465>>,
<<69552, 69579>>,
<<69600, 69622>>,
<<69632, 69709>>,
<<69714, 69743>>,
<<69759, 69825>>,
<<69837, 69837>>,
<<69840, 69864>>,
<<69872, 69881>>,
<<69888, 69940>>,
<<69942, 69959>>,
<<69968, 70006>>,
<<70016, 70111>>,
<<70113, 70132>>,
<<70144, 70161>>,
<<70163, 70206>>,
<<70272, 70278>>,
<<70280, 70280>>,
<<70282, 70285>>,
<<70287, 70301>>,
<<70303, 70313>>,
<<70320, 70378>>,
<<70384, 70393>>,
<<70400, 70403>>,
<<70405, 70412>>,
<<70415, 70416>>,
<<70419, 70440>>,
<<70442, 70448>>,
<<70450, 70451>>,
<<70453, 70457>>,
<<70459, 70468>>,
<<70471, 70472>>,
<<70475, 70477>>,
<<70480, 70480>>,
<<70487, 70487>>,
<<70493, 70499>>,
<<70502, 70508>>,
<<70512, 70516>>,
<<70656, 70747>>,
<<70749, 70753>>,
<<70784, 70855>>,
<<70864, 70873>>,
<<71040, 71093>>,
<<71096, 71133>>,
<<71168, 71236>>,
<<71248, 71257>>,
<<71264, 71276>>,
<<71296, 71352>>,
<<71360, 71369>>,
<<71424, 71450>>,
<<71453, 71467>>,
<<71472, 71487>>,
<<71680, 71739>>,
<<71840, 71922>>,
<<71935, 71942>>,
<<71945, 71945>>,
<<71948, 71955>>,
<<71957, 71958>>,
<<71960, 71989>>,
<<71991, 71992>>,
<<71995, 72006>>,
<<72016, 72025>>,
<<72096, 72103>>,
<<72106, 72151>>,
<<72154, 72164>>,
<<72192, 72263>>,
<<72272, 72354>>,
<<72384, 72440>>,
<<72704, 72712>>,
<<72714, 72758>>,
<<72760, 72773>>,
<<72784, 72812>>,
<<72816, 72847>>,
<<72850, 72871>>,
<<72873, 72886>>,
<<72960, 72966>>,
<<72968, 72969>>,
<<72971, 73014>>,
<<73018, 73018>>,
<<73020, 73021>>,
<<73023, 73031>>,
<<73040, 73049>>,
<<73056, 73061>>,
<<73063, 73064>>,
<<73066, 73102>>,
<<73104, 73105>>,
<<73107, 73112>>,
<<73120, 73129>>,
<<73440, 73464>>,
<<73648, 73648>>,
<<73664, 73713>>,
<<73727, 74649>>,
<<74752, 74862>>,
<<74864, 74868>>,
<<74880, 75075>>,
<<77824, 78894>>,
<<78896, 78904>>,
<<82944, 83526>>,
<<92160, 92728>>,
<<92736, 92766>>,
<<92768, 92777>>,
<<92782, 92783>>,
<<92880, 92909>>,
<<92912, 92917>>,
<<92928, 92997>>,
<<93008, 93017>>,
<<93019, 93025>>,
<<93027, 93047>>,
<<93053, 93071>>,
<<93760, 93850>>,
<<93952, 94026>>,
<<94031, 94087>>,
<<94095, 94111>>,
<<94176, 94180>>,
<<94192, 94193>>,
<<94208, 100343>>,
<<100352, 101589>>,
<<101632, 101640>>,
<<110592, 110878>>,
<<110928, 110930>>,
<<110948, 110951>>,
<<110960, 111355>>,
<<113664, 113770>>,
<<113776, 113788>>,
<<113792, 113800>>,
<<113808, 113817>>,
<<113820, 113827>>,
<<118784, 119029>>,
<<119040, 119078>>,
<<119081, 119272>>,
<<119296, 119365>>,
<<119520, 119539>>,
<<119552, 119638>>,
<<119648, 119672>>,
<<119808, 119892>>,
<<119894, 119964>>,
<<119966, 119967>>,
<<119970, 119970>>,
<<119973, 119974>>,
<<119977, 119980>>,
<<119982, 119993>>,
<<119995, 119995>>,
<<119997, 120003>>,
<<120005, 120069>>,
<<120071, 120074>>,
<<120077, 120084>>,
<<120086, 120092>>,
<<120094, 120121>>,
<<120123, 120126>>,
<<120128, 120132>>,
<<120134, 120134>>,
<<120138, 120144>>,
<<120146, 120485>>,
<<120488, 120779>>,
<<120782, 121483>>,
<<121499, 121503>>,
<<121505, 121519>>,
<<122880, 122886>>,
<<122888, 122904>>,
<<122907, 122913>>,
<<122915, 122916>>,
<<122918, 122922>>,
<<123136, 123180>>,
<<123184, 123197>>,
<<123200, 123209>>,
<<123214, 123215>>,
<<123584, 123641>>,
<<123647, 123647>>,
<<124928, 125124>>,
<<125127, 125142>>,
<<125184, 125259>>,
<<125264, 125273>>,
<<125278, 125279>>,
<<126065, 126132>>,
<<126209, 126269>>,
<<126464, 126467>>,
<<126469, 126495>>,
<<126497, 126498>>,
<<126500, 126500>>,
<<126503, 126503>>,
<<126505, 126514>>,
<<126516, 126519>>,
<<126521, 126521>>,
<<126523, 126523>>,
<<126530, 126530>>,
<<126535, 126535>>,
<<126537, 126537>>,
<<126539, 126539>>,
<<126541, 126543>>,
<<126545, 126546>>,
<<126548, 126548>>,
<<126551, 126551>>,
<<126553, 126553>>,
<<126555, 126555>>,
<<126557, 126557>>,
<<126559, 126559>>,
<<126561, 126562>>,
<<126564, 126564>>,
<<126567, 126570>>,
<<126572, 126578>>,
<<126580, 126583>>,
<<126585, 126588>>,
<<126590, 126590>>,
<<126592, 126601>>,
<<126603, 126619>>,
<<126625, 126627>>,
<<126629, 126633>>,
<<126635, 126651>>,
<<126704, 126705>>,
<<126976, 127019>>,
<<127024, 127123>>,
<<127136, 127150>>,
<<127153, 127167>>,
<<127169, 127183>>,
<<127185, 127221>>,
<<127232, 127405>>,
<<127462, 127490>>,
<<127504, 127547>>,
<<127552, 127560>>,
<<127568, 127569>>,
<<127584, 127589>>,
<<127744, 128727>>,
<<128736, 128748>>,
<<128752, 128764>>,
<<128768, 128883>>,
<<128896, 128984>>,
<<128992, 129003>>,
<<129024, 129035>>,
<<129040, 129095>>,
<<129104, 129113>>,
<<129120, 129159>>,
<<129168, 129197>>,
<<129200, 129201>>,
<<129280, 129400>>,
<<129402, 129483>>,
<<129485, 129619>>,
<<129632, 129645>>,
<<129648, 129652>>,
<<129656, 129658>>,
<<129664, 129670>>,
<<129680, 129704>>,
<<129712, 129718>>,
<<129728, 129730>>,
<<129744, 129750>>,
<<129792, 129938>>,
<<129940, 129994>>,
<<130032, 130041>>,
<<131070, 173789>>,
<<173824, 177972>>,
<<177984, 178205>>,
<<178208, 183969>>,
<<183984, 191456>>,
<<194560, 195101>>,
<<196606, 201546>>,
<<262142, 262143>>,
<<327678, 327679>>,
<<393214, 393215>>,
<<458750, 458751>>,
<<524286, 524287>>,
<<589822, 589823>>,
<<655358, 655359>>,
<<720894, 720895>>,
<<786430, 786431>>,
<<851966, 851967>>,
<<917502, 917503>>,
<<917505, 917505>>,
<<917536, 917631>>,
<<917760, 917999>>,
<<983038, 1114111>>
>>
====
