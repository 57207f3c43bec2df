------------------------------- MODULE Tables -------------------------------
(* Generated by tools/mktables.py: fixed point constants. *)
EXTENDS Integers, Sequences

\* SinRamp[w][j + 1] = 2^30 sin(pi/2 * j / w), 0 <= j < w
SinRamp == <<
   <<0>> ,
   <<0, 759250125>> ,
   <<0, 536870912, 929887697>> ,
   <<0, 410903207, 759250125, 992008094>> ,
   <<0, 331804471, 631129609, 868675383, 1021189159>> ,
   <<0, 277904834, 536870912, 759250125, 929887697, 1037154959>> ,
   <<0, 238930034, 465879117, 669467077, 839485162, 967407956, 1046820875>> ,
   <<0, 209476638, 410903207, 596538995, 759250125, 892783698, 992008094, 
   1053110176>> ,
   <<0, 186453311, 367241333, 536870912, 690187940, 822533958, 929887697, 
   1008987269, 1057429273>> ,
   <<0, 167970228, 331804471, 487468587, 631129609, 759250125, 868675383, 
   956710970, 1021189159, 1060522280>> ,
   <<0, 152809394, 302508029, 446048474, 580508657, 703151359, 811479926, 
   903289103, 976709918, 1030247736, 1062812680>> ,
   <<0, 140151432, 277904834, 410903207, 536870912, 653652607, 759250125, 
   851856663, 929887697, 992008094, 1037154959, 1064555814>> >>
\* SinOverPi[k + 1] = 2^29 sin(pi * k / 24) / pi, 0 <= k <= 24
SinOverPi == <<0, 22305793, 44229928, 65397276, 85445659, 104032043, 120838410, 
   135577199, 147996223, 157882992, 165068338, 169429320, 170891319, 169429320, 
   165068338, 157882992, 147996223, 135577199, 120838410, 104032043, 85445659, 
   65397276, 44229928, 22305793, 0>> 
\* CosQ[k + 1] = 2^20 cos(pi/2 * k / 24), 0 <= k <= 48
CosQ == <<1048576, 1046331, 1039605, 1028428, 1012847, 992928, 968758, 940439, 
   908093, 871859, 831891, 788361, 741455, 691374, 638333, 582558, 524288, 
   463773, 401273, 337054, 271391, 204567, 136867, 68580, 0, -68580, -136867, 
   -204567, -271391, -337054, -401273, -463773, -524288, -582558, -638333, 
   -691374, -741455, -788361, -831891, -871859, -908093, -940439, -968758, 
   -992928, -1012847, -1028428, -1039605, -1046331, -1048576>> 
\* PeskinQ[k + 1] = 2^20 phi(k / 24), Peskin's four point kernel
PeskinQ == <<524288, 523445, 521135, 517598, 513001, 507463, 501072, 493893, 485976, 
   477357, 468061, 458108, 447508, 436263, 424371, 411821, 398595, 384667, 
   370000, 354546, 338238, 320990, 302681, 283147, 262144, 241141, 221607, 
   203298, 186050, 169742, 154288, 139621, 125693, 112467, 99917, 88025, 76780, 
   66180, 56227, 46931, 38312, 30395, 23216, 16825, 11287, 6690, 3153, 843, 0>> 
\* Cos5040[k + 1] = 2^20 cos(2 pi k / 5040)
Cos5040 == <<1048576, 1048575, 1048573, 1048569, 1048563, 1048556, 1048547, 1048536, 
   1048524, 1048510, 1048495, 1048477, 1048459, 1048438, 1048416, 1048393, 
   1048367, 1048341, 1048312, 1048282, 1048250, 1048217, 1048182, 1048145, 
   1048107, 1048067, 1048025, 1047982, 1047937, 1047891, 1047843, 1047793, 
   1047742, 1047689, 1047634, 1047578, 1047520, 1047461, 1047400, 1047337, 
   1047273, 1047207, 1047139, 1047070, 1046999, 1046926, 1046852, 1046777, 
   1046699, 1046620, 1046540, 1046457, 1046373, 1046288, 1046201, 1046112, 
   1046022, 1045930, 1045836, 1045741, 1045644, 1045545, 1045445, 1045344, 
   1045240, 1045135, 1045029, 1044920, 1044810, 1044699, 1044586, 1044471, 
   1044355, 1044237, 1044117, 1043996, 1043873, 1043749, 1043622, 1043495, 
   1043365, 1043234, 1043102, 1042968, 1042832, 1042694, 1042555, 1042415, 
   1042272, 1042128, 1041983, 1041836, 1041687, 1041536, 1041384, 1041231, 
   1041075, 1040919, 1040760, 1040600, 1040438, 1040275, 1040110, 1039943, 
   1039775, 1039605, 1039434, 1039261, 1039086, 1038910, 1038732, 1038552, 
   1038371, 1038189, 1038004, 1037818, 1037631, 1037442, 1037251, 1037058, 
   1036864, 1036669, 1036471, 1036273, 1036072, 1035870, 1035666, 1035461, 
   1035254, 1035046, 1034835, 1034624, 1034410, 1034195, 1033979, 1033761, 
   1033541, 1033320, 1033097, 1032872, 1032646, 1032418, 1032189, 1031958, 
   1031725, 1031491, 1031255, 1031017, 1030778, 1030538, 1030296, 1030052, 
   1029806, 1029559, 1029311, 1029060, 1028809, 1028555, 1028300, 1028044, 
   1027785, 1027526, 1027264, 1027001, 1026736, 1026470, 1026202, 1025933, 
   1025662, 1025390, 1025115, 1024840, 1024562, 1024283, 1024003, 1023721, 
   1023437, 1023152, 1022865, 1022576, 1022286, 1021994, 1021701, 1021406, 
   1021110, 1020812, 1020512, 1020211, 1019908, 1019604, 1019298, 1018990, 
   1018681, 1018370, 1018058, 1017744, 1017429, 1017112, 1016793, 1016473, 
   1016151, 1015828, 1015503, 1015176, 1014848, 1014519, 1014187, 1013855, 
   1013520, 1013184, 1012847, 1012508, 1012167, 1011825, 1011481, 1011135, 
   1010788, 1010440, 1010090, 1009738, 1009385, 1009030, 1008673, 1008315, 
   1007956, 1007595, 1007232, 1006868, 1006502, 1006135, 1005766, 1005395, 
   1005023, 1004650, 1004275, 1003898, 1003519, 1003140, 1002758, 1002375, 
   1001991, 1001605, 1001217, 1000828, 1000437, 1000045, 999651, 999255, 
   998858, 998460, 998060, 997658, 997255, 996850, 996444, 996036, 995627, 
   995216, 994803, 994389, 993974, 993557, 993138, 992718, 992296, 991873, 
   991448, 991022, 990594, 990164, 989733, 989301, 988867, 988431, 987994, 
   987555, 987115, 986674, 986230, 985785, 985339, 984891, 984442, 983991, 
   983539, 983085, 982629, 982172, 981713, 981253, 980792, 980329, 979864, 
   979398, 978930, 978461, 977990, 977518, 977044, 976569, 976092, 975614, 
   975134, 974652, 974169, 973685, 973199, 972712, 972223, 971732, 971240, 
   970747, 970252, 969755, 969257, 968758, 968257, 967754, 967250, 966745, 
   966238, 965729, 965219, 964708, 964195, 963680, 963164, 962647, 962128, 
   961607, 961085, 960562, 960037, 959510, 958982, 958453, 957922, 957389, 
   956855, 956320, 955783, 955245, 954705, 954164, 953621, 953076, 952531, 
   951983, 951435, 950884, 950333, 949779, 949225, 948669, 948111, 947552, 
   946991, 946429, 945866, 945301, 944734, 944166, 943597, 943026, 942454, 
   941880, 941305, 940728, 940150, 939570, 938989, 938407, 937823, 937237, 
   936650, 936062, 935472, 934881, 934288, 933694, 933098, 932501, 931903, 
   931303, 930701, 930098, 929494, 928888, 928281, 927672, 927062, 926451, 
   925838, 925223, 924607, 923990, 923371, 922751, 922130, 921507, 920882, 
   920256, 919629, 919000, 918370, 917738, 917105, 916471, 915835, 915198, 
   914559, 913919, 913277, 912634, 911990, 911344, 910697, 910048, 909398, 
   908746, 908093, 907439, 906783, 906126, 905468, 904808, 904146, 903484, 
   902819, 902154, 901487, 900819, 900149, 899478, 898805, 898131, 897456, 
   896779, 896101, 895421, 894740, 894058, 893374, 892689, 892003, 891315, 
   890626, 889935, 889243, 888549, 887855, 887159, 886461, 885762, 885062, 
   884360, 883657, 882953, 882247, 881540, 880831, 880121, 879410, 878697, 
   877983, 877268, 876551, 875833, 875113, 874393, 873670, 872947, 872222, 
   871496, 870768, 870039, 869309, 868577, 867844, 867110, 866374, 865637, 
   864899, 864159, 863418, 862675, 861932, 861187, 860440, 859692, 858943, 
   858193, 857441, 856688, 855933, 855178, 854420, 853662, 852902, 852141, 
   851379, 850615, 849850, 849084, 848316, 847547, 846776, 846005, 845232, 
   844458, 843682, 842905, 842127, 841347, 840566, 839784, 839001, 838216, 
   837430, 836643, 835854, 835064, 834273, 833480, 832686, 831891, 831095, 
   830297, 829498, 828698, 827896, 827093, 826289, 825484, 824677, 823869, 
   823060, 822249, 821437, 820624, 819810, 818994, 818177, 817359, 816539, 
   815719, 814897, 814073, 813249, 812423, 811596, 810767, 809938, 809107, 
   808275, 807442, 806607, 805771, 804934, 804095, 803256, 802415, 801573, 
   800729, 799885, 799039, 798192, 797343, 796494, 795643, 794791, 793938, 
   793083, 792227, 791370, 790512, 789653, 788792, 787930, 787067, 786203, 
   785337, 784470, 783602, 782733, 781862, 780991, 780118, 779244, 778369, 
   777492, 776614, 775735, 774855, 773974, 773091, 772208, 771323, 770436, 
   769549, 768661, 767771, 766880, 765988, 765095, 764200, 763304, 762407, 
   761509, 760610, 759710, 758808, 757905, 757001, 756096, 755190, 754282, 
   753374, 752464, 751553, 750641, 749727, 748813, 747897, 746980, 746062, 
   745143, 744223, 743302, 742379, 741455, 740530, 739604, 738677, 737749, 
   736819, 735888, 734957, 734024, 733090, 732154, 731218, 730281, 729342, 
   728402, 727461, 726519, 725576, 724632, 723686, 722740, 721792, 720843, 
   719893, 718942, 717990, 717037, 716083, 715127, 714171, 713213, 712254, 
   711294, 710333, 709371, 708408, 707443, 706478, 705511, 704544, 703575, 
   702605, 701634, 700662, 699689, 698715, 697740, 696763, 695786, 694807, 
   693828, 692847, 691865, 690883, 689899, 688914, 687928, 686941, 685952, 
   684963, 683973, 682982, 681989, 680996, 680001, 679005, 678009, 677011, 
   676012, 675013, 674012, 673010, 672007, 671003, 669998, 668992, 667985, 
   666976, 665967, 664957, 663946, 662933, 661920, 660906, 659890, 658874, 
   657856, 656838, 655818, 654798, 653776, 652754, 651730, 650706, 649680, 
   648654, 647626, 646597, 645568, 644537, 643506, 642473, 641439, 640405, 
   639369, 638333, 637295, 636256, 635217, 634176, 633135, 632092, 631049, 
   630004, 628959, 627912, 626865, 625817, 624767, 623717, 622666, 621613, 
   620560, 619506, 618451, 617395, 616338, 615279, 614220, 613161, 612100, 
   611038, 609975, 608911, 607846, 606781, 605714, 604647, 603578, 602509, 
   601438, 600367, 599295, 598222, 597148, 596073, 594997, 593920, 592842, 
   591764, 590684, 589603, 588522, 587440, 586356, 585272, 584187, 583101, 
   582014, 580926, 579837, 578748, 577657, 576566, 575474, 574380, 573286, 
   572191, 571095, 569999, 568901, 567802, 566703, 565603, 564502, 563399, 
   562297, 561193, 560088, 558982, 557876, 556769, 555661, 554552, 553442, 
   552331, 551219, 550107, 548994, 547879, 546764, 545649, 544532, 543414, 
   542296, 541177, 540057, 538936, 537814, 536691, 535568, 534444, 533318, 
   532193, 531066, 529938, 528810, 527681, 526551, 525420, 524288, 523156, 
   522022, 520888, 519753, 518617, 517481, 516344, 515205, 514066, 512927, 
   511786, 510645, 509503, 508360, 507216, 506072, 504926, 503780, 502633, 
   501486, 500337, 499188, 498038, 496887, 495736, 494583, 493430, 492277, 
   491122, 489967, 488811, 487654, 486496, 485338, 484179, 483019, 481858, 
   480697, 479534, 478372, 477208, 476044, 474878, 473713, 472546, 471379, 
   470211, 469042, 467872, 466702, 465531, 464359, 463187, 462014, 460840, 
   459665, 458490, 457314, 456137, 454960, 453782, 452603, 451424, 450243, 
   449062, 447881, 446698, 445515, 444332, 443147, 441962, 440777, 439590, 
   438403, 437215, 436027, 434837, 433648, 432457, 431266, 430074, 428881, 
   427688, 426494, 425300, 424105, 422909, 421712, 420515, 419317, 418119, 
   416920, 415720, 414519, 413318, 412117, 410914, 409711, 408508, 407303, 
   406099, 404893, 403687, 402480, 401273, 400065, 398856, 397647, 396437, 
   395226, 394015, 392803, 391591, 390378, 389165, 387950, 386736, 385520, 
   384304, 383088, 381871, 380653, 379435, 378216, 376996, 375776, 374555, 
   373334, 372112, 370890, 369667, 368443, 367219, 365994, 364769, 363543, 
   362317, 361090, 359862, 358634, 357405, 356176, 354946, 353716, 352485, 
   351254, 350022, 348789, 347556, 346323, 345089, 343854, 342619, 341383, 
   340147, 338910, 337673, 336435, 335196, 333957, 332718, 331478, 330238, 
   328997, 327755, 326513, 325271, 324028, 322784, 321540, 320296, 319051, 
   317805, 316559, 315313, 314066, 312818, 311571, 310322, 309073, 307824, 
   306574, 305324, 304073, 302822, 301570, 300318, 299065, 297812, 296558, 
   295304, 294049, 292794, 291539, 290283, 289027, 287770, 286513, 285255, 
   283997, 282738, 281479, 280220, 278960, 277700, 276439, 275178, 273916, 
   272654, 271391, 270129, 268865, 267602, 266337, 265073, 263808, 262542, 
   261277, 260010, 258744, 257477, 256209, 254942, 253673, 252405, 251136, 
   249867, 248597, 247327, 246056, 244785, 243514, 242242, 240970, 239698, 
   238425, 237152, 235878, 234604, 233330, 232055, 230780, 229505, 228229, 
   226953, 225677, 224400, 223123, 221846, 220568, 219290, 218011, 216732, 
   215453, 214174, 212894, 211614, 210333, 209052, 207771, 206490, 205208, 
   203926, 202644, 201361, 200078, 198794, 197511, 196227, 194942, 193658, 
   192373, 191088, 189802, 188517, 187230, 185944, 184657, 183371, 182083, 
   180796, 179508, 178220, 176932, 175643, 174354, 173065, 171776, 170486, 
   169196, 167906, 166615, 165324, 164033, 162742, 161451, 160159, 158867, 
   157575, 156282, 154989, 153696, 152403, 151110, 149816, 148522, 147228, 
   145934, 144639, 143344, 142049, 140754, 139458, 138163, 136867, 135570, 
   134274, 132978, 131681, 130384, 129087, 127789, 126492, 125194, 123896, 
   122598, 121299, 120001, 118702, 117403, 116104, 114805, 113505, 112206, 
   110906, 109606, 108306, 107006, 105705, 104404, 103104, 101803, 100502, 
   99200, 97899, 96597, 95296, 93994, 92692, 91389, 90087, 88785, 87482, 86179, 
   84876, 83573, 82270, 80967, 79664, 78360, 77057, 75753, 74449, 73145, 71841, 
   70537, 69232, 67928, 66623, 65319, 64014, 62709, 61404, 60099, 58794, 57489, 
   56184, 54878, 53573, 52267, 50962, 49656, 48350, 47044, 45738, 44432, 43126, 
   41820, 40514, 39208, 37901, 36595, 35288, 33982, 32675, 31369, 30062, 28755, 
   27449, 26142, 24835, 23528, 22221, 20914, 19607, 18300, 16993, 15686, 14379, 
   13072, 11765, 10458, 9150, 7843, 6536, 5229, 3922, 2614, 1307, 0, -1307, 
   -2614, -3922, -5229, -6536, -7843, -9150, -10458, -11765, -13072, -14379, 
   -15686, -16993, -18300, -19607, -20914, -22221, -23528, -24835, -26142, 
   -27449, -28755, -30062, -31369, -32675, -33982, -35288, -36595, -37901, 
   -39208, -40514, -41820, -43126, -44432, -45738, -47044, -48350, -49656, 
   -50962, -52267, -53573, -54878, -56184, -57489, -58794, -60099, -61404, 
   -62709, -64014, -65319, -66623, -67928, -69232, -70537, -71841, -73145, 
   -74449, -75753, -77057, -78360, -79664, -80967, -82270, -83573, -84876, 
   -86179, -87482, -88785, -90087, -91389, -92692, -93994, -95296, -96597, 
   -97899, -99200, -100502, -101803, -103104, -104404, -105705, -107006, 
   -108306, -109606, -110906, -112206, -113505, -114805, -116104, -117403, 
   -118702, -120001, -121299, -122598, -123896, -125194, -126492, -127789, 
   -129087, -130384, -131681, -132978, -134274, -135570, -136867, -138163, 
   -139458, -140754, -142049, -143344, -144639, -145934, -147228, -148522, 
   -149816, -151110, -152403, -153696, -154989, -156282, -157575, -158867, 
   -160159, -161451, -162742, -164033, -165324, -166615, -167906, -169196, 
   -170486, -171776, -173065, -174354, -175643, -176932, -178220, -179508, 
   -180796, -182083, -183371, -184657, -185944, -187230, -188517, -189802, 
   -191088, -192373, -193658, -194942, -196227, -197511, -198794, -200078, 
   -201361, -202644, -203926, -205208, -206490, -207771, -209052, -210333, 
   -211614, -212894, -214174, -215453, -216732, -218011, -219290, -220568, 
   -221846, -223123, -224400, -225677, -226953, -228229, -229505, -230780, 
   -232055, -233330, -234604, -235878, -237152, -238425, -239698, -240970, 
   -242242, -243514, -244785, -246056, -247327, -248597, -249867, -251136, 
   -252405, -253673, -254942, -256209, -257477, -258744, -260010, -261277, 
   -262542, -263808, -265073, -266337, -267602, -268865, -270129, -271391, 
   -272654, -273916, -275178, -276439, -277700, -278960, -280220, -281479, 
   -282738, -283997, -285255, -286513, -287770, -289027, -290283, -291539, 
   -292794, -294049, -295304, -296558, -297812, -299065, -300318, -301570, 
   -302822, -304073, -305324, -306574, -307824, -309073, -310322, -311571, 
   -312818, -314066, -315313, -316559, -317805, -319051, -320296, -321540, 
   -322784, -324028, -325271, -326513, -327755, -328997, -330238, -331478, 
   -332718, -333957, -335196, -336435, -337673, -338910, -340147, -341383, 
   -342619, -343854, -345089, -346323, -347556, -348789, -350022, -351254, 
   -352485, -353716, -354946, -356176, -357405, -358634, -359862, -361090, 
   -362317, -363543, -364769, -365994, -367219, -368443, -369667, -370890, 
   -372112, -373334, -374555, -375776, -376996, -378216, -379435, -380653, 
   -381871, -383088, -384304, -385520, -386736, -387950, -389165, -390378, 
   -391591, -392803, -394015, -395226, -396437, -397647, -398856, -400065, 
   -401273, -402480, -403687, -404893, -406099, -407303, -408508, -409711, 
   -410914, -412117, -413318, -414519, -415720, -416920, -418119, -419317, 
   -420515, -421712, -422909, -424105, -425300, -426494, -427688, -428881, 
   -430074, -431266, -432457, -433648, -434837, -436027, -437215, -438403, 
   -439590, -440777, -441962, -443147, -444332, -445515, -446698, -447881, 
   -449062, -450243, -451424, -452603, -453782, -454960, -456137, -457314, 
   -458490, -459665, -460840, -462014, -463187, -464359, -465531, -466702, 
   -467872, -469042, -470211, -471379, -472546, -473713, -474878, -476044, 
   -477208, -478372, -479534, -480697, -481858, -483019, -484179, -485338, 
   -486496, -487654, -488811, -489967, -491122, -492277, -493430, -494583, 
   -495736, -496887, -498038, -499188, -500337, -501486, -502633, -503780, 
   -504926, -506072, -507216, -508360, -509503, -510645, -511786, -512927, 
   -514066, -515205, -516344, -517481, -518617, -519753, -520888, -522022, 
   -523156, -524288, -525420, -526551, -527681, -528810, -529938, -531066, 
   -532193, -533318, -534444, -535568, -536691, -537814, -538936, -540057, 
   -541177, -542296, -543414, -544532, -545649, -546764, -547879, -548994, 
   -550107, -551219, -552331, -553442, -554552, -555661, -556769, -557876, 
   -558982, -560088, -561193, -562297, -563399, -564502, -565603, -566703, 
   -567802, -568901, -569999, -571095, -572191, -573286, -574380, -575474, 
   -576566, -577657, -578748, -579837, -580926, -582014, -583101, -584187, 
   -585272, -586356, -587440, -588522, -589603, -590684, -591764, -592842, 
   -593920, -594997, -596073, -597148, -598222, -599295, -600367, -601438, 
   -602509, -603578, -604647, -605714, -606781, -607846, -608911, -609975, 
   -611038, -612100, -613161, -614220, -615279, -616338, -617395, -618451, 
   -619506, -620560, -621613, -622666, -623717, -624767, -625817, -626865, 
   -627912, -628959, -630004, -631049, -632092, -633135, -634176, -635217, 
   -636256, -637295, -638333, -639369, -640405, -641439, -642473, -643506, 
   -644537, -645568, -646597, -647626, -648654, -649680, -650706, -651730, 
   -652754, -653776, -654798, -655818, -656838, -657856, -658874, -659890, 
   -660906, -661920, -662933, -663946, -664957, -665967, -666976, -667985, 
   -668992, -669998, -671003, -672007, -673010, -674012, -675013, -676012, 
   -677011, -678009, -679005, -680001, -680996, -681989, -682982, -683973, 
   -684963, -685952, -686941, -687928, -688914, -689899, -690883, -691865, 
   -692847, -693828, -694807, -695786, -696763, -697740, -698715, -699689, 
   -700662, -701634, -702605, -703575, -704544, -705511, -706478, -707443, 
   -708408, -709371, -710333, -711294, -712254, -713213, -714171, -715127, 
   -716083, -717037, -717990, -718942, -719893, -720843, -721792, -722740, 
   -723686, -724632, -725576, -726519, -727461, -728402, -729342, -730281, 
   -731218, -732154, -733090, -734024, -734957, -735888, -736819, -737749, 
   -738677, -739604, -740530, -741455, -742379, -743302, -744223, -745143, 
   -746062, -746980, -747897, -748813, -749727, -750641, -751553, -752464, 
   -753374, -754282, -755190, -756096, -757001, -757905, -758808, -759710, 
   -760610, -761509, -762407, -763304, -764200, -765095, -765988, -766880, 
   -767771, -768661, -769549, -770436, -771323, -772208, -773091, -773974, 
   -774855, -775735, -776614, -777492, -778369, -779244, -780118, -780991, 
   -781862, -782733, -783602, -784470, -785337, -786203, -787067, -787930, 
   -788792, -789653, -790512, -791370, -792227, -793083, -793938, -794791, 
   -795643, -796494, -797343, -798192, -799039, -799885, -800729, -801573, 
   -802415, -803256, -804095, -804934, -805771, -806607, -807442, -808275, 
   -809107, -809938, -810767, -811596, -812423, -813249, -814073, -814897, 
   -815719, -816539, -817359, -818177, -818994, -819810, -820624, -821437, 
   -822249, -823060, -823869, -824677, -825484, -826289, -827093, -827896, 
   -828698, -829498, -830297, -831095, -831891, -832686, -833480, -834273, 
   -835064, -835854, -836643, -837430, -838216, -839001, -839784, -840566, 
   -841347, -842127, -842905, -843682, -844458, -845232, -846005, -846776, 
   -847547, -848316, -849084, -849850, -850615, -851379, -852141, -852902, 
   -853662, -854420, -855178, -855933, -856688, -857441, -858193, -858943, 
   -859692, -860440, -861187, -861932, -862675, -863418, -864159, -864899, 
   -865637, -866374, -867110, -867844, -868577, -869309, -870039, -870768, 
   -871496, -872222, -872947, -873670, -874393, -875113, -875833, -876551, 
   -877268, -877983, -878697, -879410, -880121, -880831, -881540, -882247, 
   -882953, -883657, -884360, -885062, -885762, -886461, -887159, -887855, 
   -888549, -889243, -889935, -890626, -891315, -892003, -892689, -893374, 
   -894058, -894740, -895421, -896101, -896779, -897456, -898131, -898805, 
   -899478, -900149, -900819, -901487, -902154, -902819, -903484, -904146, 
   -904808, -905468, -906126, -906783, -907439, -908093, -908746, -909398, 
   -910048, -910697, -911344, -911990, -912634, -913277, -913919, -914559, 
   -915198, -915835, -916471, -917105, -917738, -918370, -919000, -919629, 
   -920256, -920882, -921507, -922130, -922751, -923371, -923990, -924607, 
   -925223, -925838, -926451, -927062, -927672, -928281, -928888, -929494, 
   -930098, -930701, -931303, -931903, -932501, -933098, -933694, -934288, 
   -934881, -935472, -936062, -936650, -937237, -937823, -938407, -938989, 
   -939570, -940150, -940728, -941305, -941880, -942454, -943026, -943597, 
   -944166, -944734, -945301, -945866, -946429, -946991, -947552, -948111, 
   -948669, -949225, -949779, -950333, -950884, -951435, -951983, -952531, 
   -953076, -953621, -954164, -954705, -955245, -955783, -956320, -956855, 
   -957389, -957922, -958453, -958982, -959510, -960037, -960562, -961085, 
   -961607, -962128, -962647, -963164, -963680, -964195, -964708, -965219, 
   -965729, -966238, -966745, -967250, -967754, -968257, -968758, -969257, 
   -969755, -970252, -970747, -971240, -971732, -972223, -972712, -973199, 
   -973685, -974169, -974652, -975134, -975614, -976092, -976569, -977044, 
   -977518, -977990, -978461, -978930, -979398, -979864, -980329, -980792, 
   -981253, -981713, -982172, -982629, -983085, -983539, -983991, -984442, 
   -984891, -985339, -985785, -986230, -986674, -987115, -987555, -987994, 
   -988431, -988867, -989301, -989733, -990164, -990594, -991022, -991448, 
   -991873, -992296, -992718, -993138, -993557, -993974, -994389, -994803, 
   -995216, -995627, -996036, -996444, -996850, -997255, -997658, -998060, 
   -998460, -998858, -999255, -999651, -1000045, -1000437, -1000828, -1001217, 
   -1001605, -1001991, -1002375, -1002758, -1003140, -1003519, -1003898, 
   -1004275, -1004650, -1005023, -1005395, -1005766, -1006135, -1006502, 
   -1006868, -1007232, -1007595, -1007956, -1008315, -1008673, -1009030, 
   -1009385, -1009738, -1010090, -1010440, -1010788, -1011135, -1011481, 
   -1011825, -1012167, -1012508, -1012847, -1013184, -1013520, -1013855, 
   -1014187, -1014519, -1014848, -1015176, -1015503, -1015828, -1016151, 
   -1016473, -1016793, -1017112, -1017429, -1017744, -1018058, -1018370, 
   -1018681, -1018990, -1019298, -1019604, -1019908, -1020211, -1020512, 
   -1020812, -1021110, -1021406, -1021701, -1021994, -1022286, -1022576, 
   -1022865, -1023152, -1023437, -1023721, -1024003, -1024283, -1024562, 
   -1024840, -1025115, -1025390, -1025662, -1025933, -1026202, -1026470, 
   -1026736, -1027001, -1027264, -1027526, -1027785, -1028044, -1028300, 
   -1028555, -1028809, -1029060, -1029311, -1029559, -1029806, -1030052, 
   -1030296, -1030538, -1030778, -1031017, -1031255, -1031491, -1031725, 
   -1031958, -1032189, -1032418, -1032646, -1032872, -1033097, -1033320, 
   -1033541, -1033761, -1033979, -1034195, -1034410, -1034624, -1034835, 
   -1035046, -1035254, -1035461, -1035666, -1035870, -1036072, -1036273, 
   -1036471, -1036669, -1036864, -1037058, -1037251, -1037442, -1037631, 
   -1037818, -1038004, -1038189, -1038371, -1038552, -1038732, -1038910, 
   -1039086, -1039261, -1039434, -1039605, -1039775, -1039943, -1040110, 
   -1040275, -1040438, -1040600, -1040760, -1040919, -1041075, -1041231, 
   -1041384, -1041536, -1041687, -1041836, -1041983, -1042128, -1042272, 
   -1042415, -1042555, -1042694, -1042832, -1042968, -1043102, -1043234, 
   -1043365, -1043495, -1043622, -1043749, -1043873, -1043996, -1044117, 
   -1044237, -1044355, -1044471, -1044586, -1044699, -1044810, -1044920, 
   -1045029, -1045135, -1045240, -1045344, -1045445, -1045545, -1045644, 
   -1045741, -1045836, -1045930, -1046022, -1046112, -1046201, -1046288, 
   -1046373, -1046457, -1046540, -1046620, -1046699, -1046777, -1046852, 
   -1046926, -1046999, -1047070, -1047139, -1047207, -1047273, -1047337, 
   -1047400, -1047461, -1047520, -1047578, -1047634, -1047689, -1047742, 
   -1047793, -1047843, -1047891, -1047937, -1047982, -1048025, -1048067, 
   -1048107, -1048145, -1048182, -1048217, -1048250, -1048282, -1048312, 
   -1048341, -1048367, -1048393, -1048416, -1048438, -1048459, -1048477, 
   -1048495, -1048510, -1048524, -1048536, -1048547, -1048556, -1048563, 
   -1048569, -1048573, -1048575, -1048576, -1048575, -1048573, -1048569, 
   -1048563, -1048556, -1048547, -1048536, -1048524, -1048510, -1048495, 
   -1048477, -1048459, -1048438, -1048416, -1048393, -1048367, -1048341, 
   -1048312, -1048282, -1048250, -1048217, -1048182, -1048145, -1048107, 
   -1048067, -1048025, -1047982, -1047937, -1047891, -1047843, -1047793, 
   -1047742, -1047689, -1047634, -1047578, -1047520, -1047461, -1047400, 
   -1047337, -1047273, -1047207, -1047139, -1047070, -1046999, -1046926, 
   -1046852, -1046777, -1046699, -1046620, -1046540, -1046457, -1046373, 
   -1046288, -1046201, -1046112, -1046022, -1045930, -1045836, -1045741, 
   -1045644, -1045545, -1045445, -1045344, -1045240, -1045135, -1045029, 
   -1044920, -1044810, -1044699, -1044586, -1044471, -1044355, -1044237, 
   -1044117, -1043996, -1043873, -1043749, -1043622, -1043495, -1043365, 
   -1043234, -1043102, -1042968, -1042832, -1042694, -1042555, -1042415, 
   -1042272, -1042128, -1041983, -1041836, -1041687, -1041536, -1041384, 
   -1041231, -1041075, -1040919, -1040760, -1040600, -1040438, -1040275, 
   -1040110, -1039943, -1039775, -1039605, -1039434, -1039261, -1039086, 
   -1038910, -1038732, -1038552, -1038371, -1038189, -1038004, -1037818, 
   -1037631, -1037442, -1037251, -1037058, -1036864, -1036669, -1036471, 
   -1036273, -1036072, -1035870, -1035666, -1035461, -1035254, -1035046, 
   -1034835, -1034624, -1034410, -1034195, -1033979, -1033761, -1033541, 
   -1033320, -1033097, -1032872, -1032646, -1032418, -1032189, -1031958, 
   -1031725, -1031491, -1031255, -1031017, -1030778, -1030538, -1030296, 
   -1030052, -1029806, -1029559, -1029311, -1029060, -1028809, -1028555, 
   -1028300, -1028044, -1027785, -1027526, -1027264, -1027001, -1026736, 
   -1026470, -1026202, -1025933, -1025662, -1025390, -1025115, -1024840, 
   -1024562, -1024283, -1024003, -1023721, -1023437, -1023152, -1022865, 
   -1022576, -1022286, -1021994, -1021701, -1021406, -1021110, -1020812, 
   -1020512, -1020211, -1019908, -1019604, -1019298, -1018990, -1018681, 
   -1018370, -1018058, -1017744, -1017429, -1017112, -1016793, -1016473, 
   -1016151, -1015828, -1015503, -1015176, -1014848, -1014519, -1014187, 
   -1013855, -1013520, -1013184, -1012847, -1012508, -1012167, -1011825, 
   -1011481, -1011135, -1010788, -1010440, -1010090, -1009738, -1009385, 
   -1009030, -1008673, -1008315, -1007956, -1007595, -1007232, -1006868, 
   -1006502, -1006135, -1005766, -1005395, -1005023, -1004650, -1004275, 
   -1003898, -1003519, -1003140, -1002758, -1002375, -1001991, -1001605, 
   -1001217, -1000828, -1000437, -1000045, -999651, -999255, -998858, -998460, 
   -998060, -997658, -997255, -996850, -996444, -996036, -995627, -995216, 
   -994803, -994389, -993974, -993557, -993138, -992718, -992296, -991873, 
   -991448, -991022, -990594, -990164, -989733, -989301, -988867, -988431, 
   -987994, -987555, -987115, -986674, -986230, -985785, -985339, -984891, 
   -984442, -983991, -983539, -983085, -982629, -982172, -981713, -981253, 
   -980792, -980329, -979864, -979398, -978930, -978461, -977990, -977518, 
   -977044, -976569, -976092, -975614, -975134, -974652, -974169, -973685, 
   -973199, -972712, -972223, -971732, -971240, -970747, -970252, -969755, 
   -969257, -968758, -968257, -967754, -967250, -966745, -966238, -965729, 
   -965219, -964708, -964195, -963680, -963164, -962647, -962128, -961607, 
   -961085, -960562, -960037, -959510, -958982, -958453, -957922, -957389, 
   -956855, -956320, -955783, -955245, -954705, -954164, -953621, -953076, 
   -952531, -951983, -951435, -950884, -950333, -949779, -949225, -948669, 
   -948111, -947552, -946991, -946429, -945866, -945301, -944734, -944166, 
   -943597, -943026, -942454, -941880, -941305, -940728, -940150, -939570, 
   -938989, -938407, -937823, -937237, -936650, -936062, -935472, -934881, 
   -934288, -933694, -933098, -932501, -931903, -931303, -930701, -930098, 
   -929494, -928888, -928281, -927672, -927062, -926451, -925838, -925223, 
   -924607, -923990, -923371, -922751, -922130, -921507, -920882, -920256, 
   -919629, -919000, -918370, -917738, -917105, -916471, -915835, -915198, 
   -914559, -913919, -913277, -912634, -911990, -911344, -910697, -910048, 
   -909398, -908746, -908093, -907439, -906783, -906126, -905468, -904808, 
   -904146, -903484, -902819, -902154, -901487, -900819, -900149, -899478, 
   -898805, -898131, -897456, -896779, -896101, -895421, -894740, -894058, 
   -893374, -892689, -892003, -891315, -890626, -889935, -889243, -888549, 
   -887855, -887159, -886461, -885762, -885062, -884360, -883657, -882953, 
   -882247, -881540, -880831, -880121, -879410, -878697, -877983, -877268, 
   -876551, -875833, -875113, -874393, -873670, -872947, -872222, -871496, 
   -870768, -870039, -869309, -868577, -867844, -867110, -866374, -865637, 
   -864899, -864159, -863418, -862675, -861932, -861187, -860440, -859692, 
   -858943, -858193, -857441, -856688, -855933, -855178, -854420, -853662, 
   -852902, -852141, -851379, -850615, -849850, -849084, -848316, -847547, 
   -846776, -846005, -845232, -844458, -843682, -842905, -842127, -841347, 
   -840566, -839784, -839001, -838216, -837430, -836643, -835854, -835064, 
   -834273, -833480, -832686, -831891, -831095, -830297, -829498, -828698, 
   -827896, -827093, -826289, -825484, -824677, -823869, -823060, -822249, 
   -821437, -820624, -819810, -818994, -818177, -817359, -816539, -815719, 
   -814897, -814073, -813249, -812423, -811596, -810767, -809938, -809107, 
   -808275, -807442, -806607, -805771, -804934, -804095, -803256, -802415, 
   -801573, -800729, -799885, -799039, -798192, -797343, -796494, -795643, 
   -794791, -793938, -793083, -792227, -791370, -790512, -789653, -788792, 
   -787930, -787067, -786203, -785337, -784470, -783602, -782733, -781862, 
   -780991, -780118, -779244, -778369, -777492, -776614, -775735, -774855, 
   -773974, -773091, -772208, -771323, -770436, -769549, -768661, -767771, 
   -766880, -765988, -765095, -764200, -763304, -762407, -761509, -760610, 
   -759710, -758808, -757905, -757001, -756096, -755190, -754282, -753374, 
   -752464, -751553, -750641, -749727, -748813, -747897, -746980, -746062, 
   -745143, -744223, -743302, -742379, -741455, -740530, -739604, -738677, 
   -737749, -736819, -735888, -734957, -734024, -733090, -732154, -731218, 
   -730281, -729342, -728402, -727461, -726519, -725576, -724632, -723686, 
   -722740, -721792, -720843, -719893, -718942, -717990, -717037, -716083, 
   -715127, -714171, -713213, -712254, -711294, -710333, -709371, -708408, 
   -707443, -706478, -705511, -704544, -703575, -702605, -701634, -700662, 
   -699689, -698715, -697740, -696763, -695786, -694807, -693828, -692847, 
   -691865, -690883, -689899, -688914, -687928, -686941, -685952, -684963, 
   -683973, -682982, -681989, -680996, -680001, -679005, -678009, -677011, 
   -676012, -675013, -674012, -673010, -672007, -671003, -669998, -668992, 
   -667985, -666976, -665967, -664957, -663946, -662933, -661920, -660906, 
   -659890, -658874, -657856, -656838, -655818, -654798, -653776, -652754, 
   -651730, -650706, -649680, -648654, -647626, -646597, -645568, -644537, 
   -643506, -642473, -641439, -640405, -639369, -638333, -637295, -636256, 
   -635217, -634176, -633135, -632092, -631049, -630004, -628959, -627912, 
   -626865, -625817, -624767, -623717, -622666, -621613, -620560, -619506, 
   -618451, -617395, -616338, -615279, -614220, -613161, -612100, -611038, 
   -609975, -608911, -607846, -606781, -605714, -604647, -603578, -602509, 
   -601438, -600367, -599295, -598222, -597148, -596073, -594997, -593920, 
   -592842, -591764, -590684, -589603, -588522, -587440, -586356, -585272, 
   -584187, -583101, -582014, -580926, -579837, -578748, -577657, -576566, 
   -575474, -574380, -573286, -572191, -571095, -569999, -568901, -567802, 
   -566703, -565603, -564502, -563399, -562297, -561193, -560088, -558982, 
   -557876, -556769, -555661, -554552, -553442, -552331, -551219, -550107, 
   -548994, -547879, -546764, -545649, -544532, -543414, -542296, -541177, 
   -540057, -538936, -537814, -536691, -535568, -534444, -533318, -532193, 
   -531066, -529938, -528810, -527681, -526551, -525420, -524288, -523156, 
   -522022, -520888, -519753, -518617, -517481, -516344, -515205, -514066, 
   -512927, -511786, -510645, -509503, -508360, -507216, -506072, -504926, 
   -503780, -502633, -501486, -500337, -499188, -498038, -496887, -495736, 
   -494583, -493430, -492277, -491122, -489967, -488811, -487654, -486496, 
   -485338, -484179, -483019, -481858, -480697, -479534, -478372, -477208, 
   -476044, -474878, -473713, -472546, -471379, -470211, -469042, -467872, 
   -466702, -465531, -464359, -463187, -462014, -460840, -459665, -458490, 
   -457314, -456137, -454960, -453782, -452603, -451424, -450243, -449062, 
   -447881, -446698, -445515, -444332, -443147, -441962, -440777, -439590, 
   -438403, -437215, -436027, -434837, -433648, -432457, -431266, -430074, 
   -428881, -427688, -426494, -425300, -424105, -422909, -421712, -420515, 
   -419317, -418119, -416920, -415720, -414519, -413318, -412117, -410914, 
   -409711, -408508, -407303, -406099, -404893, -403687, -402480, -401273, 
   -400065, -398856, -397647, -396437, -395226, -394015, -392803, -391591, 
   -390378, -389165, -387950, -386736, -385520, -384304, -383088, -381871, 
   -380653, -379435, -378216, -376996, -375776, -374555, -373334, -372112, 
   -370890, -369667, -368443, -367219, -365994, -364769, -363543, -362317, 
   -361090, -359862, -358634, -357405, -356176, -354946, -353716, -352485, 
   -351254, -350022, -348789, -347556, -346323, -345089, -343854, -342619, 
   -341383, -340147, -338910, -337673, -336435, -335196, -333957, -332718, 
   -331478, -330238, -328997, -327755, -326513, -325271, -324028, -322784, 
   -321540, -320296, -319051, -317805, -316559, -315313, -314066, -312818, 
   -311571, -310322, -309073, -307824, -306574, -305324, -304073, -302822, 
   -301570, -300318, -299065, -297812, -296558, -295304, -294049, -292794, 
   -291539, -290283, -289027, -287770, -286513, -285255, -283997, -282738, 
   -281479, -280220, -278960, -277700, -276439, -275178, -273916, -272654, 
   -271391, -270129, -268865, -267602, -266337, -265073, -263808, -262542, 
   -261277, -260010, -258744, -257477, -256209, -254942, -253673, -252405, 
   -251136, -249867, -248597, -247327, -246056, -244785, -243514, -242242, 
   -240970, -239698, -238425, -237152, -235878, -234604, -233330, -232055, 
   -230780, -229505, -228229, -226953, -225677, -224400, -223123, -221846, 
   -220568, -219290, -218011, -216732, -215453, -214174, -212894, -211614, 
   -210333, -209052, -207771, -206490, -205208, -203926, -202644, -201361, 
   -200078, -198794, -197511, -196227, -194942, -193658, -192373, -191088, 
   -189802, -188517, -187230, -185944, -184657, -183371, -182083, -180796, 
   -179508, -178220, -176932, -175643, -174354, -173065, -171776, -170486, 
   -169196, -167906, -166615, -165324, -164033, -162742, -161451, -160159, 
   -158867, -157575, -156282, -154989, -153696, -152403, -151110, -149816, 
   -148522, -147228, -145934, -144639, -143344, -142049, -140754, -139458, 
   -138163, -136867, -135570, -134274, -132978, -131681, -130384, -129087, 
   -127789, -126492, -125194, -123896, -122598, -121299, -120001, -118702, 
   -117403, -116104, -114805, -113505, -112206, -110906, -109606, -108306, 
   -107006, -105705, -104404, -103104, -101803, -100502, -99200, -97899, 
   -96597, -95296, -93994, -92692, -91389, -90087, -88785, -87482, -86179, 
   -84876, -83573, -82270, -80967, -79664, -78360, -77057, -75753, -74449, 
   -73145, -71841, -70537, -69232, -67928, -66623, -65319, -64014, -62709, 
   -61404, -60099, -58794, -57489, -56184, -54878, -53573, -52267, -50962, 
   -49656, -48350, -47044, -45738, -44432, -43126, -41820, -40514, -39208, 
   -37901, -36595, -35288, -33982, -32675, -31369, -30062, -28755, -27449, 
   -26142, -24835, -23528, -22221, -20914, -19607, -18300, -16993, -15686, 
   -14379, -13072, -11765, -10458, -9150, -7843, -6536, -5229, -3922, -2614, 
   -1307, 0, 1307, 2614, 3922, 5229, 6536, 7843, 9150, 10458, 11765, 13072, 
   14379, 15686, 16993, 18300, 19607, 20914, 22221, 23528, 24835, 26142, 27449, 
   28755, 30062, 31369, 32675, 33982, 35288, 36595, 37901, 39208, 40514, 41820, 
   43126, 44432, 45738, 47044, 48350, 49656, 50962, 52267, 53573, 54878, 56184, 
   57489, 58794, 60099, 61404, 62709, 64014, 65319, 66623, 67928, 69232, 70537, 
   71841, 73145, 74449, 75753, 77057, 78360, 79664, 80967, 82270, 83573, 84876, 
   86179, 87482, 88785, 90087, 91389, 92692, 93994, 95296, 96597, 97899, 99200, 
   100502, 101803, 103104, 104404, 105705, 107006, 108306, 109606, 110906, 
   112206, 113505, 114805, 116104, 117403, 118702, 120001, 121299, 122598, 
   123896, 125194, 126492, 127789, 129087, 130384, 131681, 132978, 134274, 
   135570, 136867, 138163, 139458, 140754, 142049, 143344, 144639, 145934, 
   147228, 148522, 149816, 151110, 152403, 153696, 154989, 156282, 157575, 
   158867, 160159, 161451, 162742, 164033, 165324, 166615, 167906, 169196, 
   170486, 171776, 173065, 174354, 175643, 176932, 178220, 179508, 180796, 
   182083, 183371, 184657, 185944, 187230, 188517, 189802, 191088, 192373, 
   193658, 194942, 196227, 197511, 198794, 200078, 201361, 202644, 203926, 
   205208, 206490, 207771, 209052, 210333, 211614, 212894, 214174, 215453, 
   216732, 218011, 219290, 220568, 221846, 223123, 224400, 225677, 226953, 
   228229, 229505, 230780, 232055, 233330, 234604, 235878, 237152, 238425, 
   239698, 240970, 242242, 243514, 244785, 246056, 247327, 248597, 249867, 
   251136, 252405, 253673, 254942, 256209, 257477, 258744, 260010, 261277, 
   262542, 263808, 265073, 266337, 267602, 268865, 270129, 271391, 272654, 
   273916, 275178, 276439, 277700, 278960, 280220, 281479, 282738, 283997, 
   285255, 286513, 287770, 289027, 290283, 291539, 292794, 294049, 295304, 
   296558, 297812, 299065, 300318, 301570, 302822, 304073, 305324, 306574, 
   307824, 309073, 310322, 311571, 312818, 314066, 315313, 316559, 317805, 
   319051, 320296, 321540, 322784, 324028, 325271, 326513, 327755, 328997, 
   330238, 331478, 332718, 333957, 335196, 336435, 337673, 338910, 340147, 
   341383, 342619, 343854, 345089, 346323, 347556, 348789, 350022, 351254, 
   352485, 353716, 354946, 356176, 357405, 358634, 359862, 361090, 362317, 
   363543, 364769, 365994, 367219, 368443, 369667, 370890, 372112, 373334, 
   374555, 375776, 376996, 378216, 379435, 380653, 381871, 383088, 384304, 
   385520, 386736, 387950, 389165, 390378, 391591, 392803, 394015, 395226, 
   396437, 397647, 398856, 400065, 401273, 402480, 403687, 404893, 406099, 
   407303, 408508, 409711, 410914, 412117, 413318, 414519, 415720, 416920, 
   418119, 419317, 420515, 421712, 422909, 424105, 425300, 426494, 427688, 
   428881, 430074, 431266, 432457, 433648, 434837, 436027, 437215, 438403, 
   439590, 440777, 441962, 443147, 444332, 445515, 446698, 447881, 449062, 
   450243, 451424, 452603, 453782, 454960, 456137, 457314, 458490, 459665, 
   460840, 462014, 463187, 464359, 465531, 466702, 467872, 469042, 470211, 
   471379, 472546, 473713, 474878, 476044, 477208, 478372, 479534, 480697, 
   481858, 483019, 484179, 485338, 486496, 487654, 488811, 489967, 491122, 
   492277, 493430, 494583, 495736, 496887, 498038, 499188, 500337, 501486, 
   502633, 503780, 504926, 506072, 507216, 508360, 509503, 510645, 511786, 
   512927, 514066, 515205, 516344, 517481, 518617, 519753, 520888, 522022, 
   523156, 524288, 525420, 526551, 527681, 528810, 529938, 531066, 532193, 
   533318, 534444, 535568, 536691, 537814, 538936, 540057, 541177, 542296, 
   543414, 544532, 545649, 546764, 547879, 548994, 550107, 551219, 552331, 
   553442, 554552, 555661, 556769, 557876, 558982, 560088, 561193, 562297, 
   563399, 564502, 565603, 566703, 567802, 568901, 569999, 571095, 572191, 
   573286, 574380, 575474, 576566, 577657, 578748, 579837, 580926, 582014, 
   583101, 584187, 585272, 586356, 587440, 588522, 589603, 590684, 591764, 
   592842, 593920, 594997, 596073, 597148, 598222, 599295, 600367, 601438, 
   602509, 603578, 604647, 605714, 606781, 607846, 608911, 609975, 611038, 
   612100, 613161, 614220, 615279, 616338, 617395, 618451, 619506, 620560, 
   621613, 622666, 623717, 624767, 625817, 626865, 627912, 628959, 630004, 
   631049, 632092, 633135, 634176, 635217, 636256, 637295, 638333, 639369, 
   640405, 641439, 642473, 643506, 644537, 645568, 646597, 647626, 648654, 
   649680, 650706, 651730, 652754, 653776, 654798, 655818, 656838, 657856, 
   658874, 659890, 660906, 661920, 662933, 663946, 664957, 665967, 666976, 
   667985, 668992, 669998, 671003, 672007, 673010, 674012, 675013, 676012, 
   677011, 678009, 679005, 680001, 680996, 681989, 682982, 683973, 684963, 
   685952, 686941, 687928, 688914, 689899, 690883, 691865, 692847, 693828, 
   694807, 695786, 696763, 697740, 698715, 699689, 700662, 701634, 702605, 
   703575, 704544, 705511, 706478, 707443, 708408, 709371, 710333, 711294, 
   712254, 713213, 714171, 715127, 716083, 717037, 717990, 718942, 719893, 
   720843, 721792, 722740, 723686, 724632, 725576, 726519, 727461, 728402, 
   729342, 730281, 731218, 732154, 733090, 734024, 734957, 735888, 736819, 
   737749, 738677, 739604, 740530, 741455, 742379, 743302, 744223, 745143, 
   746062, 746980, 747897, 748813, 749727, 750641, 751553, 752464, 753374, 
   754282, 755190, 756096, 757001, 757905, 758808, 759710, 760610, 761509, 
   762407, 763304, 764200, 765095, 765988, 766880, 767771, 768661, 769549, 
   770436, 771323, 772208, 773091, 773974, 774855, 775735, 776614, 777492, 
   778369, 779244, 780118, 780991, 781862, 782733, 783602, 784470, 785337, 
   786203, 787067, 787930, 788792, 789653, 790512, 791370, 792227, 793083, 
   793938, 794791, 795643, 796494, 797343, 798192, 799039, 799885, 800729, 
   801573, 802415, 803256, 804095, 804934, 805771, 806607, 807442, 808275, 
   809107, 809938, 810767, 811596, 812423, 813249, 814073, 814897, 815719, 
   816539, 817359, 818177, 818994, 819810, 820624, 821437, 822249, 823060, 
   823869, 824677, 825484, 826289, 827093, 827896, 828698, 829498, 830297, 
   831095, 831891, 832686, 833480, 834273, 835064, 835854, 836643, 837430, 
   838216, 839001, 839784, 840566, 841347, 842127, 842905, 843682, 844458, 
   845232, 846005, 846776, 847547, 848316, 849084, 849850, 850615, 851379, 
   852141, 852902, 853662, 854420, 855178, 855933, 856688, 857441, 858193, 
   858943, 859692, 860440, 861187, 861932, 862675, 863418, 864159, 864899, 
   865637, 866374, 867110, 867844, 868577, 869309, 870039, 870768, 871496, 
   872222, 872947, 873670, 874393, 875113, 875833, 876551, 877268, 877983, 
   878697, 879410, 880121, 880831, 881540, 882247, 882953, 883657, 884360, 
   885062, 885762, 886461, 887159, 887855, 888549, 889243, 889935, 890626, 
   891315, 892003, 892689, 893374, 894058, 894740, 895421, 896101, 896779, 
   897456, 898131, 898805, 899478, 900149, 900819, 901487, 902154, 902819, 
   903484, 904146, 904808, 905468, 906126, 906783, 907439, 908093, 908746, 
   909398, 910048, 910697, 911344, 911990, 912634, 913277, 913919, 914559, 
   915198, 915835, 916471, 917105, 917738, 918370, 919000, 919629, 920256, 
   920882, 921507, 922130, 922751, 923371, 923990, 924607, 925223, 925838, 
   926451, 927062, 927672, 928281, 928888, 929494, 930098, 930701, 931303, 
   931903, 932501, 933098, 933694, 934288, 934881, 935472, 936062, 936650, 
   937237, 937823, 938407, 938989, 939570, 940150, 940728, 941305, 941880, 
   942454, 943026, 943597, 944166, 944734, 945301, 945866, 946429, 946991, 
   947552, 948111, 948669, 949225, 949779, 950333, 950884, 951435, 951983, 
   952531, 953076, 953621, 954164, 954705, 955245, 955783, 956320, 956855, 
   957389, 957922, 958453, 958982, 959510, 960037, 960562, 961085, 961607, 
   962128, 962647, 963164, 963680, 964195, 964708, 965219, 965729, 966238, 
   966745, 967250, 967754, 968257, 968758, 969257, 969755, 970252, 970747, 
   971240, 971732, 972223, 972712, 973199, 973685, 974169, 974652, 975134, 
   975614, 976092, 976569, 977044, 977518, 977990, 978461, 978930, 979398, 
   979864, 980329, 980792, 981253, 981713, 982172, 982629, 983085, 983539, 
   983991, 984442, 984891, 985339, 985785, 986230, 986674, 987115, 987555, 
   987994, 988431, 988867, 989301, 989733, 990164, 990594, 991022, 991448, 
   991873, 992296, 992718, 993138, 993557, 993974, 994389, 994803, 995216, 
   995627, 996036, 996444, 996850, 997255, 997658, 998060, 998460, 998858, 
   999255, 999651, 1000045, 1000437, 1000828, 1001217, 1001605, 1001991, 
   1002375, 1002758, 1003140, 1003519, 1003898, 1004275, 1004650, 1005023, 
   1005395, 1005766, 1006135, 1006502, 1006868, 1007232, 1007595, 1007956, 
   1008315, 1008673, 1009030, 1009385, 1009738, 1010090, 1010440, 1010788, 
   1011135, 1011481, 1011825, 1012167, 1012508, 1012847, 1013184, 1013520, 
   1013855, 1014187, 1014519, 1014848, 1015176, 1015503, 1015828, 1016151, 
   1016473, 1016793, 1017112, 1017429, 1017744, 1018058, 1018370, 1018681, 
   1018990, 1019298, 1019604, 1019908, 1020211, 1020512, 1020812, 1021110, 
   1021406, 1021701, 1021994, 1022286, 1022576, 1022865, 1023152, 1023437, 
   1023721, 1024003, 1024283, 1024562, 1024840, 1025115, 1025390, 1025662, 
   1025933, 1026202, 1026470, 1026736, 1027001, 1027264, 1027526, 1027785, 
   1028044, 1028300, 1028555, 1028809, 1029060, 1029311, 1029559, 1029806, 
   1030052, 1030296, 1030538, 1030778, 1031017, 1031255, 1031491, 1031725, 
   1031958, 1032189, 1032418, 1032646, 1032872, 1033097, 1033320, 1033541, 
   1033761, 1033979, 1034195, 1034410, 1034624, 1034835, 1035046, 1035254, 
   1035461, 1035666, 1035870, 1036072, 1036273, 1036471, 1036669, 1036864, 
   1037058, 1037251, 1037442, 1037631, 1037818, 1038004, 1038189, 1038371, 
   1038552, 1038732, 1038910, 1039086, 1039261, 1039434, 1039605, 1039775, 
   1039943, 1040110, 1040275, 1040438, 1040600, 1040760, 1040919, 1041075, 
   1041231, 1041384, 1041536, 1041687, 1041836, 1041983, 1042128, 1042272, 
   1042415, 1042555, 1042694, 1042832, 1042968, 1043102, 1043234, 1043365, 
   1043495, 1043622, 1043749, 1043873, 1043996, 1044117, 1044237, 1044355, 
   1044471, 1044586, 1044699, 1044810, 1044920, 1045029, 1045135, 1045240, 
   1045344, 1045445, 1045545, 1045644, 1045741, 1045836, 1045930, 1046022, 
   1046112, 1046201, 1046288, 1046373, 1046457, 1046540, 1046620, 1046699, 
   1046777, 1046852, 1046926, 1046999, 1047070, 1047139, 1047207, 1047273, 
   1047337, 1047400, 1047461, 1047520, 1047578, 1047634, 1047689, 1047742, 
   1047793, 1047843, 1047891, 1047937, 1047982, 1048025, 1048067, 1048107, 
   1048145, 1048182, 1048217, 1048250, 1048282, 1048312, 1048341, 1048367, 
   1048393, 1048416, 1048438, 1048459, 1048477, 1048495, 1048510, 1048524, 
   1048536, 1048547, 1048556, 1048563, 1048569, 1048573, 1048575>> 
\* LogG[s] = 2^20 ln(s) / (4 pi), s = squared distance in cells
LogG == <<0, 57838, 91672, 115677, 134296, 149510, 162373, 173515, 183343, 192135, 
   200088, 207348, 214027, 220211, 225968, 231353, 236412, 241181, 245693, 
   249973, 254044, 257926, 261635, 265186, 268593, 271865, 275015, 278049, 
   280977, 283806, 286542, 289191, 291759, 294250, 296669, 299020, 301306, 
   303531, 305699, 307811, 309872, 311882, 313846, 315764, 317639, 319473, 
   321268, 323025, 324745, 326431, 328083, 329704, 331293, 332853, 334384, 
   335888, 337364, 338816, 340242, 341645, 343024, 344381, 345716, 347030, 
   348324, 349597, 350852, 352088, 353307, 354507, 355691, 356858, 358009, 
   359144, 360264, 361369, 362460, 363537, 364600, 365650, 366686, 367710, 
   368721, 369721, 370708, 371684, 372649, 373603, 374545, 375478, 376400, 
   377312, 378214, 379106, 379989, 380863, 381728, 382584, 383431, 384269, 
   385100, 385922, 386736, 387542, 388341, 389131, 389915, 390691, 391460, 
   392222, 392977, 393726, 394468, 395203, 395931, 396654, 397370, 398080, 
   398785, 399483, 400175, 400862, 401543, 402219, 402889, 403554, 404214, 
   404868, 405517, 406162, 406801, 407436, 408066, 408691, 409311, 409927, 
   410538, 411145, 411747, 412346, 412940, 413529, 414115, 414696, 415274, 
   415847, 416417, 416983, 417544, 418103, 418657, 419208, 419755, 420299, 
   420839, 421375, 421908, 422438, 422965, 423488, 424008, 424524, 425038, 
   425548, 426056, 426560, 427061, 427559, 428054, 428547, 429036, 429523, 
   430006, 430487, 430965, 431441, 431914, 432384, 432851, 433316, 433778, 
   434238, 434695, 435150, 435602, 436052, 436500, 436945, 437387, 437828, 
   438266, 438701, 439135, 439566, 439995, 440422, 440847, 441269, 441689, 
   442108, 442524, 442938, 443350, 443760, 444168, 444574, 444978, 445380, 
   445781, 446179, 446575, 446970, 447362, 447753, 448142, 448530, 448915, 
   449299, 449680, 450061, 450439, 450816, 451191, 451564, 451936, 452306, 
   452674, 453041, 453406, 453770, 454132, 454492, 454851, 455209, 455564, 
   455919, 456271, 456623, 456973, 457321, 457668, 458014, 458358, 458700, 
   459042, 459382, 459720, 460057, 460393, 460727, 461061, 461392, 461723, 
   462052, 462380, 462706, 463032, 463356, 463679, 464000, 464320, 464640, 
   464957, 465274, 465590, 465904, 466217, 466529, 466840, 467149, 467458, 
   467765, 468071, 468376, 468680, 468983, 469285, 469586, 469885, 470184, 
   470481, 470778, 471073, 471368, 471661, 471953, 472244, 472535, 472824, 
   473112, 473399, 473686, 473971, 474255, 474538, 474821, 475102, 475383, 
   475662, 475941, 476219, 476495, 476771, 477046, 477320, 477593, 477866, 
   478137, 478407, 478677, 478946, 479214, 479481, 479747, 480012, 480277, 
   480540, 480803, 481065, 481326, 481587, 481846, 482105, 482363, 482620, 
   482876, 483132, 483387, 483641, 483894, 484146, 484398, 484649, 484899, 
   485149, 485397, 485645, 485893, 486139, 486385, 486630, 486874, 487118, 
   487361, 487603, 487845, 488085, 488325, 488565, 488804, 489042, 489279, 
   489516, 489752, 489987, 490222, 490456, 490689, 490922, 491154, 491386, 
   491617, 491847, 492076, 492305, 492534, 492761, 492988, 493215, 493441, 
   493666, 493890, 494114, 494338, 494561, 494783, 495004, 495226, 495446, 
   495666, 495885, 496104, 496322, 496540, 496757, 496973, 497189, 497404, 
   497619, 497833, 498047, 498260, 498473, 498685, 498896, 499107, 499318, 
   499528, 499737, 499946, 500154, 500362, 500569, 500776, 500983, 501188, 
   501394, 501598, 501803, 502006, 502210, 502412, 502615, 502816, 503018, 
   503219, 503419, 503619, 503818, 504017, 504216, 504414, 504611, 504808, 
   505005, 505201, 505396, 505592, 505786, 505981, 506174, 506368, 506561, 
   506753, 506945, 507137, 507328, 507519, 507709, 507899, 508088, 508277, 
   508466, 508654, 508842, 509029, 509216, 509402, 509588, 509774, 509959, 
   510144, 510329, 510513, 510696, 510879, 511062, 511245, 511427, 511608, 
   511789, 511970, 512151, 512331, 512510, 512689, 512868, 513047, 513225, 
   513403, 513580, 513757, 513934, 514110, 514286, 514461, 514636, 514811, 
   514985, 515159, 515333, 515506, 515679, 515852, 516024, 516196, 516367, 
   516539, 516709, 516880, 517050, 517220, 517389, 517558, 517727, 517895, 
   518064, 518231, 518399, 518566, 518732, 518899, 519065, 519231, 519396, 
   519561, 519726, 519890, 520054, 520218, 520382, 520545, 520708, 520870, 
   521032, 521194, 521356, 521517, 521678, 521838, 521999, 522159, 522318, 
   522478, 522637, 522796, 522954, 523112, 523270, 523428, 523585, 523742, 
   523899, 524055, 524211, 524367, 524523, 524678, 524833, 524988, 525142, 
   525296, 525450, 525603, 525757, 525910, 526062, 526215, 526367, 526519, 
   526670, 526822, 526973, 527123, 527274, 527424, 527574, 527724, 527873, 
   528022, 528171, 528320, 528468, 528616, 528764, 528911, 529059, 529206, 
   529353, 529499, 529645, 529791, 529937, 530083, 530228, 530373, 530518, 
   530662, 530806, 530950, 531094, 531238, 531381, 531524, 531667, 531809, 
   531951, 532093, 532235, 532377, 532518, 532659, 532800, 532941, 533081, 
   533221, 533361, 533501, 533640, 533779, 533918, 534057, 534195, 534334, 
   534472, 534609, 534747, 534884, 535022, 535158, 535295, 535432, 535568, 
   535704, 535840, 535975, 536111, 536246, 536381, 536515, 536650, 536784, 
   536918, 537052, 537185, 537319, 537452, 537585, 537718, 537850, 537983, 
   538115, 538247, 538378, 538510, 538641, 538772, 538903, 539034, 539164, 
   539295, 539425, 539555, 539684, 539814, 539943, 540072, 540201, 540330, 
   540458, 540586, 540715, 540842, 540970, 541098, 541225, 541352, 541479, 
   541606, 541732, 541858, 541985, 542111, 542236, 542362, 542487, 542612, 
   542737, 542862, 542987, 543111, 543236, 543360, 543484, 543607, 543731, 
   543854, 543977, 544100, 544223, 544346, 544468, 544590, 544713, 544834, 
   544956, 545078, 545199, 545320, 545441, 545562, 545683, 545803, 545924, 
   546044, 546164, 546284, 546403, 546523, 546642, 546761, 546880, 546999, 
   547117, 547236, 547354, 547472, 547590, 547708, 547826, 547943, 548060, 
   548177, 548294, 548411, 548528, 548644, 548761, 548877, 548993, 549108, 
   549224, 549340, 549455, 549570, 549685, 549800, 549915, 550029, 550144, 
   550258, 550372, 550486, 550600, 550713, 550827, 550940, 551053, 551166, 
   551279, 551392, 551504, 551616, 551729, 551841, 551953, 552065, 552176, 
   552288, 552399, 552510, 552621, 552732, 552843, 552953, 553064, 553174, 
   553284, 553394, 553504, 553614, 553723, 553833, 553942, 554051, 554160, 
   554269, 554378, 554487, 554595, 554703, 554811, 554919, 555027, 555135, 
   555243, 555350, 555457, 555565, 555672, 555779, 555885, 555992, 556098, 
   556205, 556311, 556417, 556523, 556629, 556735, 556840, 556946, 557051, 
   557156, 557261, 557366, 557471, 557575, 557680, 557784, 557888, 557993, 
   558097, 558200, 558304, 558408, 558511, 558615, 558718, 558821, 558924, 
   559027, 559129, 559232, 559334, 559437, 559539, 559641, 559743, 559845, 
   559946, 560048, 560149, 560251, 560352, 560453, 560554, 560655, 560756, 
   560856, 560957, 561057, 561157, 561257, 561357, 561457, 561557, 561657, 
   561756, 561855, 561955, 562054, 562153, 562252, 562351, 562449, 562548, 
   562646, 562745, 562843, 562941, 563039, 563137, 563235, 563332, 563430, 
   563527, 563625, 563722, 563819, 563916, 564013, 564109, 564206, 564303, 
   564399, 564495, 564592, 564688, 564784, 564879, 564975, 565071, 565166, 
   565262, 565357, 565452, 565547, 565642, 565737, 565832, 565927, 566021, 
   566116, 566210, 566304, 566398, 566492, 566586, 566680, 566774, 566867, 
   566961, 567054, 567148, 567241, 567334, 567427, 567520, 567612, 567705, 
   567798, 567890, 567982, 568075, 568167, 568259, 568351, 568443, 568534, 
   568626, 568718, 568809, 568900, 568992, 569083, 569174, 569265, 569356, 
   569446, 569537, 569628, 569718, 569808, 569899, 569989, 570079, 570169, 
   570259, 570348, 570438, 570528, 570617, 570707, 570796, 570885, 570974, 
   571063, 571152, 571241, 571330, 571418, 571507, 571595, 571684, 571772, 
   571860, 571948, 572036, 572124, 572212, 572299, 572387, 572475, 572562, 
   572649, 572737, 572824, 572911, 572998, 573085, 573171, 573258, 573345, 
   573431, 573518, 573604, 573690, 573776, 573862, 573948, 574034, 574120, 
   574206, 574291, 574377, 574462, 574548, 574633, 574718, 574803, 574888, 
   574973, 575058, 575143, 575228, 575312, 575397, 575481, 575565, 575650, 
   575734, 575818, 575902, 575986, 576070, 576153, 576237, 576321, 576404, 
   576487, 576571, 576654, 576737, 576820, 576903, 576986, 577069, 577152, 
   577234, 577317, 577399, 577482, 577564, 577646, 577729, 577811, 577893, 
   577975, 578056, 578138, 578220, 578301, 578383, 578464, 578546, 578627, 
   578708, 578789, 578870, 578951, 579032, 579113, 579194, 579275, 579355, 
   579436, 579516, 579596, 579677, 579757, 579837, 579917, 579997, 580077, 
   580157, 580236, 580316, 580396, 580475, 580555, 580634, 580713, 580792, 
   580872, 580951, 581030, 581109, 581187, 581266, 581345, 581423, 581502, 
   581580, 581659, 581737, 581815, 581894, 581972, 582050, 582128, 582205, 
   582283, 582361, 582439, 582516, 582594, 582671, 582749, 582826, 582903, 
   582980, 583057, 583134, 583211, 583288, 583365, 583442, 583518, 583595, 
   583671, 583748, 583824, 583901, 583977, 584053, 584129, 584205, 584281, 
   584357, 584433, 584509, 584584, 584660, 584735, 584811, 584886, 584962, 
   585037, 585112, 585187, 585262, 585337, 585412, 585487, 585562, 585637, 
   585711, 585786, 585860, 585935, 586009, 586084, 586158, 586232, 586306, 
   586380, 586454, 586528, 586602, 586676, 586750, 586823, 586897, 586971, 
   587044, 587118, 587191, 587264, 587337, 587411, 587484, 587557, 587630, 
   587703, 587775, 587848, 587921, 587994, 588066, 588139, 588211, 588284, 
   588356, 588428, 588500, 588573, 588645, 588717, 588789, 588861, 588932, 
   589004, 589076, 589148, 589219, 589291, 589362, 589434, 589505, 589576, 
   589647, 589719, 589790, 589861, 589932, 590003, 590073, 590144, 590215, 
   590286, 590356, 590427, 590497, 590568, 590638, 590709, 590779, 590849, 
   590919, 590989, 591059, 591129, 591199, 591269, 591339, 591409, 591478, 
   591548, 591617, 591687, 591756, 591826, 591895, 591964, 592034, 592103, 
   592172, 592241, 592310, 592379, 592448, 592517, 592585, 592654, 592723, 
   592791, 592860, 592928, 592997, 593065, 593133, 593202, 593270, 593338, 
   593406, 593474, 593542, 593610, 593678, 593746, 593813, 593881, 593949, 
   594016, 594084, 594151, 594219, 594286, 594354, 594421, 594488, 594555, 
   594622, 594689, 594756, 594823, 594890, 594957, 595024, 595091, 595157, 
   595224, 595290, 595357, 595423, 595490, 595556, 595622, 595689, 595755, 
   595821, 595887, 595953, 596019, 596085, 596151, 596217, 596283, 596348, 
   596414, 596480, 596545, 596611, 596676, 596742, 596807, 596872, 596938, 
   597003, 597068, 597133, 597198, 597263, 597328, 597393, 597458, 597523, 
   597587, 597652, 597717, 597781, 597846, 597910, 597975, 598039, 598104, 
   598168, 598232, 598296, 598361, 598425, 598489, 598553, 598617, 598681, 
   598745, 598808, 598872, 598936, 599000, 599063, 599127, 599190, 599254, 
   599317, 599381, 599444, 599507, 599570, 599634, 599697, 599760, 599823, 
   599886, 599949, 600012, 600075, 600137, 600200, 600263, 600326, 600388, 
   600451, 600513, 600576, 600638, 600701, 600763, 600825, 600887, 600950, 
   601012, 601074, 601136, 601198, 601260, 601322, 601384, 601446, 601507, 
   601569, 601631, 601693, 601754, 601816, 601877, 601939, 602000, 602061, 
   602123, 602184, 602245, 602307, 602368, 602429, 602490, 602551, 602612, 
   602673, 602734, 602794, 602855, 602916, 602977, 603037, 603098, 603159, 
   603219, 603280, 603340, 603400, 603461, 603521, 603581, 603642, 603702, 
   603762, 603822, 603882, 603942, 604002, 604062, 604122, 604182, 604242, 
   604301, 604361, 604421, 604480, 604540, 604599, 604659, 604718, 604778, 
   604837, 604896, 604956, 605015, 605074, 605133, 605192, 605252, 605311, 
   605370, 605428, 605487, 605546, 605605, 605664, 605723, 605781, 605840, 
   605899, 605957, 606016, 606074, 606133, 606191, 606249, 606308, 606366, 
   606424, 606483, 606541, 606599, 606657, 606715, 606773, 606831, 606889, 
   606947, 607005, 607062, 607120, 607178, 607236, 607293, 607351, 607408, 
   607466, 607523, 607581, 607638, 607696, 607753, 607810, 607868, 607925, 
   607982, 608039, 608096, 608153, 608210, 608267, 608324, 608381, 608438, 
   608495, 608551, 608608, 608665, 608722, 608778, 608835, 608891, 608948, 
   609004, 609061, 609117, 609174, 609230, 609286, 609342, 609399, 609455, 
   609511, 609567, 609623, 609679, 609735, 609791, 609847, 609903, 609959, 
   610014, 610070, 610126, 610182, 610237, 610293, 610348, 610404, 610459, 
   610515, 610570, 610626, 610681, 610736, 610792, 610847, 610902, 610957, 
   611012, 611068, 611123, 611178, 611233, 611288, 611342, 611397, 611452, 
   611507, 611562, 611616, 611671, 611726, 611780, 611835, 611890, 611944, 
   611999, 612053, 612108, 612162, 612216, 612271, 612325, 612379, 612433, 
   612487, 612542, 612596, 612650, 612704, 612758, 612812, 612866, 612919, 
   612973, 613027, 613081, 613135, 613188, 613242, 613296, 613349, 613403, 
   613456, 613510, 613563, 613617, 613670, 613724, 613777, 613830, 613884, 
   613937, 613990, 614043, 614096, 614149, 614202, 614255, 614308, 614361, 
   614414, 614467, 614520, 614573, 614626, 614678, 614731, 614784, 614837, 
   614889, 614942, 614994, 615047, 615099, 615152, 615204, 615257, 615309, 
   615361, 615414, 615466, 615518, 615570, 615623, 615675, 615727, 615779, 
   615831, 615883, 615935, 615987, 616039, 616091, 616142, 616194, 616246, 
   616298, 616349, 616401, 616453, 616504, 616556, 616608, 616659, 616711, 
   616762, 616813, 616865, 616916, 616968, 617019, 617070, 617121, 617173, 
   617224, 617275, 617326, 617377, 617428, 617479, 617530, 617581, 617632, 
   617683, 617734, 617785, 617835, 617886, 617937, 617988, 618038, 618089, 
   618140, 618190, 618241, 618291, 618342, 618392, 618443, 618493, 618543, 
   618594, 618644, 618694, 618745, 618795, 618845, 618895, 618945, 618995, 
   619046, 619096, 619146, 619196, 619246, 619295, 619345, 619395, 619445, 
   619495, 619545, 619594, 619644, 619694, 619743, 619793, 619843, 619892, 
   619942, 619991, 620041, 620090, 620140, 620189, 620238, 620288, 620337, 
   620386, 620435, 620485, 620534, 620583, 620632, 620681, 620730, 620779, 
   620828, 620877, 620926, 620975, 621024, 621073, 621122, 621171, 621219, 
   621268, 621317, 621366, 621414, 621463, 621512, 621560, 621609, 621657, 
   621706, 621754, 621803, 621851, 621899, 621948, 621996, 622044, 622093, 
   622141, 622189, 622237, 622285, 622334, 622382, 622430, 622478, 622526, 
   622574, 622622, 622670, 622718, 622766, 622813, 622861, 622909, 622957, 
   623005, 623052, 623100, 623148, 623195, 623243, 623291, 623338, 623386, 
   623433, 623481, 623528, 623576, 623623, 623670, 623718, 623765, 623812, 
   623859, 623907, 623954, 624001, 624048, 624095, 624143, 624190, 624237, 
   624284, 624331, 624378, 624425, 624471, 624518, 624565, 624612, 624659, 
   624706, 624752, 624799, 624846, 624893, 624939, 624986, 625032, 625079, 
   625126, 625172, 625219, 625265, 625312, 625358, 625404, 625451, 625497, 
   625543, 625590, 625636, 625682, 625728, 625775, 625821, 625867, 625913, 
   625959, 626005, 626051, 626097, 626143, 626189, 626235, 626281, 626327, 
   626373, 626419, 626464, 626510, 626556, 626602, 626647, 626693, 626739, 
   626784, 626830, 626876, 626921, 626967, 627012, 627058, 627103, 627149, 
   627194, 627239, 627285, 627330, 627375, 627421, 627466, 627511, 627556, 
   627602, 627647, 627692, 627737, 627782, 627827, 627872, 627917, 627962, 
   628007, 628052, 628097, 628142, 628187, 628232, 628276, 628321, 628366, 
   628411, 628456, 628500, 628545, 628590, 628634, 628679, 628723, 628768, 
   628813, 628857, 628902, 628946, 628990, 629035, 629079, 629124, 629168, 
   629212, 629257, 629301, 629345, 629389, 629434, 629478, 629522, 629566, 
   629610, 629654, 629698, 629742, 629786, 629830, 629874, 629918, 629962, 
   630006, 630050, 630094, 630138, 630182, 630225, 630269, 630313, 630357, 
   630400, 630444, 630488, 630531, 630575, 630618, 630662, 630706, 630749, 
   630793, 630836, 630879, 630923, 630966, 631010, 631053, 631096, 631140, 
   631183, 631226, 631269, 631313, 631356, 631399, 631442, 631485, 631528, 
   631572, 631615, 631658, 631701, 631744, 631787, 631830, 631873, 631915, 
   631958, 632001, 632044, 632087, 632130, 632172, 632215, 632258, 632301, 
   632343, 632386, 632429, 632471, 632514, 632557, 632599, 632642, 632684, 
   632727, 632769, 632812, 632854, 632896, 632939, 632981, 633024, 633066, 
   633108, 633150, 633193, 633235, 633277, 633319, 633362, 633404, 633446, 
   633488, 633530, 633572, 633614, 633656, 633698, 633740, 633782, 633824, 
   633866, 633908, 633950, 633992, 634033, 634075, 634117, 634159, 634201, 
   634242>> 
\* Ln2G26 = 2^26 ln 2 / (2 pi)
Ln2G26 == 7403302
\* Reg2 = 2^20 * (1 + ln pi) / (4 pi): regularised value at distance 0 for dx = 1
Reg2 == 178963
\* InvG[s] = 2^20 / (4 pi sqrt(s))
InvG == <<83443, 59003, 48176, 41722, 37317, 34065, 31538, 29502, 27814, 26387, 
   25159, 24088, 23143, 22301, 21545, 20861, 20238, 19668, 19143, 18658, 18209, 
   17790, 17399, 17033, 16689, 16365, 16059, 15769, 15495, 15235, 14987, 14751, 
   14526, 14310, 14104, 13907, 13718, 13536, 13362, 13194, 13032, 12876, 12725, 
   12580, 12439, 12303, 12171, 12044, 11920, 11801, 11684, 11571, 11462, 11355, 
   11251, 11151, 11052, 10957, 10863, 10772, 10684, 10597, 10513, 10430, 10350, 
   10271, 10194, 10119, 10045, 9973, 9903, 9834, 9766, 9700, 9635, 9572, 9509, 
   9448, 9388, 9329, 9271, 9215, 9159, 9104, 9051, 8998, 8946, 8895, 8845, 
   8796, 8747, 8700, 8653, 8606, 8561, 8516, 8472, 8429, 8386, 8344, 8303, 
   8262, 8222, 8182, 8143, 8105, 8067, 8029, 7992, 7956, 7920, 7885, 7850, 
   7815, 7781, 7747, 7714, 7682, 7649, 7617, 7586, 7555, 7524, 7493, 7463, 
   7434, 7404, 7375, 7347, 7318, 7290, 7263, 7235, 7208, 7182, 7155, 7129, 
   7103, 7078, 7052, 7027, 7002, 6978, 6954, 6930, 6906, 6882, 6859, 6836, 
   6813, 6790, 6768, 6746, 6724, 6702, 6681, 6659, 6638, 6617, 6597, 6576, 
   6556, 6536, 6516, 6496, 6476, 6457, 6438, 6419, 6400, 6381, 6362, 6344, 
   6326, 6308, 6290, 6272, 6254, 6237, 6219, 6202, 6185, 6168, 6152, 6135, 
   6118, 6102, 6086, 6070, 6054, 6038, 6022, 6006, 5991, 5975, 5960, 5945, 
   5930, 5915, 5900, 5886, 5871, 5857, 5842, 5828, 5814, 5800, 5786, 5772, 
   5758, 5744, 5731, 5717, 5704, 5691, 5678, 5664, 5651, 5639, 5626, 5613, 
   5600, 5588, 5575, 5563, 5551, 5538, 5526, 5514, 5502, 5490, 5478, 5467, 
   5455, 5443, 5432, 5420, 5409, 5397, 5386, 5375, 5364, 5353, 5342, 5331, 
   5320, 5309, 5299, 5288, 5277, 5267, 5256, 5246, 5236, 5225, 5215, 5205, 
   5195, 5185, 5175, 5165, 5155, 5145, 5136, 5126, 5116, 5107, 5097, 5088, 
   5078, 5069, 5059, 5050, 5041, 5032, 5023, 5014, 5005, 4996, 4987, 4978, 
   4969, 4960, 4951, 4943, 4934, 4925, 4917, 4908, 4900, 4892, 4883, 4875, 
   4866, 4858, 4850, 4842, 4834, 4826, 4818, 4810, 4802, 4794, 4786, 4778, 
   4770, 4762, 4755, 4747, 4739, 4732, 4724, 4716, 4709, 4701, 4694, 4687, 
   4679, 4672, 4665, 4657, 4650, 4643, 4636, 4629, 4621, 4614, 4607, 4600, 
   4593, 4586, 4580, 4573, 4566, 4559, 4552, 4545, 4539, 4532, 4525, 4519, 
   4512, 4505, 4499, 4492, 4486, 4479, 4473, 4467, 4460, 4454, 4448, 4441, 
   4435, 4429, 4422, 4416, 4410, 4404, 4398, 4392, 4386, 4380, 4374, 4368, 
   4362, 4356, 4350, 4344, 4338, 4332, 4326, 4321, 4315, 4309, 4303, 4298, 
   4292, 4286, 4281, 4275, 4269, 4264, 4258, 4253, 4247, 4242, 4236, 4231, 
   4225, 4220, 4215, 4209, 4204, 4198, 4193, 4188, 4183, 4177, 4172, 4167, 
   4162, 4157, 4151, 4146, 4141, 4136, 4131, 4126, 4121, 4116, 4111, 4106, 
   4101, 4096, 4091, 4086, 4081, 4076, 4072, 4067, 4062, 4057, 4052, 4048, 
   4043, 4038, 4033, 4029, 4024, 4019, 4015, 4010, 4005, 4001, 3996, 3992, 
   3987, 3983, 3978, 3973, 3969, 3964, 3960, 3956, 3951, 3947, 3942, 3938, 
   3934, 3929, 3925, 3920, 3916, 3912, 3908, 3903, 3899, 3895, 3891, 3886, 
   3882, 3878, 3874, 3870, 3865, 3861, 3857, 3853, 3849, 3845, 3841, 3837, 
   3833, 3829, 3825, 3821, 3817, 3813, 3809, 3805, 3801, 3797, 3793, 3789, 
   3785, 3781, 3777, 3773, 3770, 3766, 3762, 3758, 3754, 3750, 3747, 3743, 
   3739, 3735, 3732, 3728, 3724, 3721, 3717, 3713, 3709, 3706, 3702, 3699, 
   3695, 3691, 3688, 3684, 3681, 3677, 3673, 3670, 3666, 3663, 3659, 3656, 
   3652, 3649, 3645, 3642, 3638, 3635, 3631, 3628, 3625, 3621, 3618, 3614, 
   3611, 3608, 3604, 3601, 3597, 3594, 3591, 3587, 3584, 3581, 3578, 3574, 
   3571, 3568, 3565, 3561, 3558, 3555, 3552, 3548, 3545, 3542, 3539, 3536, 
   3532, 3529, 3526, 3523, 3520, 3517, 3514, 3510, 3507, 3504, 3501, 3498, 
   3495, 3492, 3489, 3486, 3483, 3480, 3477, 3474, 3471, 3468, 3465, 3462, 
   3459, 3456, 3453, 3450, 3447, 3444, 3441, 3438, 3435, 3432, 3429, 3427, 
   3424, 3421, 3418, 3415, 3412, 3409, 3407, 3404, 3401, 3398, 3395, 3392, 
   3390, 3387, 3384, 3381, 3379, 3376, 3373, 3370, 3367, 3365, 3362, 3359, 
   3357, 3354, 3351, 3348, 3346, 3343, 3340, 3338, 3335, 3332, 3330, 3327, 
   3324, 3322, 3319, 3317, 3314, 3311, 3309, 3306, 3304, 3301, 3298, 3296, 
   3293, 3291, 3288, 3286, 3283, 3280, 3278, 3275, 3273, 3270, 3268, 3265, 
   3263, 3260, 3258, 3255, 3253, 3250, 3248, 3246, 3243, 3241, 3238, 3236, 
   3233, 3231, 3229, 3226, 3224, 3221, 3219, 3216, 3214, 3212, 3209, 3207, 
   3205, 3202, 3200, 3198, 3195, 3193, 3191, 3188, 3186, 3184, 3181, 3179, 
   3177, 3174, 3172, 3170, 3167, 3165, 3163, 3161, 3158, 3156, 3154, 3152, 
   3149, 3147, 3145, 3143, 3140, 3138, 3136, 3134, 3132, 3129, 3127, 3125, 
   3123, 3121, 3118, 3116, 3114, 3112, 3110, 3108, 3105, 3103, 3101, 3099, 
   3097, 3095, 3093, 3090, 3088, 3086, 3084, 3082, 3080, 3078, 3076, 3074, 
   3072, 3070, 3067, 3065, 3063, 3061, 3059, 3057, 3055, 3053, 3051, 3049, 
   3047, 3045, 3043, 3041, 3039, 3037, 3035, 3033, 3031, 3029, 3027, 3025, 
   3023, 3021, 3019, 3017, 3015, 3013, 3011, 3009, 3007, 3005, 3003, 3001, 
   2999, 2997, 2995, 2994, 2992, 2990, 2988, 2986, 2984, 2982, 2980, 2978, 
   2976, 2974, 2973, 2971, 2969, 2967, 2965, 2963, 2961, 2959, 2958, 2956, 
   2954, 2952, 2950, 2948, 2946, 2945, 2943, 2941, 2939, 2937, 2936, 2934, 
   2932, 2930, 2928, 2926, 2925, 2923, 2921, 2919, 2918, 2916, 2914, 2912, 
   2910, 2909, 2907, 2905, 2903, 2902, 2900, 2898, 2896, 2895, 2893, 2891, 
   2889, 2888, 2886, 2884, 2882, 2881, 2879, 2877, 2876, 2874, 2872, 2871, 
   2869, 2867, 2865, 2864, 2862, 2860, 2859, 2857, 2855, 2854, 2852, 2850, 
   2849, 2847, 2845, 2844, 2842, 2840, 2839, 2837, 2836, 2834, 2832, 2831, 
   2829, 2827, 2826, 2824, 2823, 2821, 2819, 2818, 2816, 2814, 2813, 2811, 
   2810, 2808, 2806, 2805, 2803, 2802, 2800, 2799, 2797, 2795, 2794, 2792, 
   2791, 2789, 2788, 2786, 2785, 2783, 2781, 2780, 2778, 2777, 2775, 2774, 
   2772, 2771, 2769, 2768, 2766, 2765, 2763, 2762, 2760, 2759, 2757, 2756, 
   2754, 2753, 2751, 2750, 2748, 2747, 2745, 2744, 2742, 2741, 2739, 2738, 
   2736, 2735, 2733, 2732, 2730, 2729, 2727, 2726, 2725, 2723, 2722, 2720, 
   2719, 2717, 2716, 2714, 2713, 2712, 2710, 2709, 2707, 2706, 2704, 2703, 
   2702, 2700, 2699, 2697, 2696, 2695, 2693, 2692, 2690, 2689, 2688, 2686, 
   2685, 2683, 2682, 2681, 2679, 2678, 2676, 2675, 2674, 2672, 2671, 2670, 
   2668, 2667, 2665, 2664, 2663, 2661, 2660, 2659, 2657, 2656, 2655, 2653, 
   2652, 2651, 2649, 2648, 2647, 2645, 2644, 2643, 2641, 2640, 2639>> 
\* kernels of the immersed boundary at 2^30
KerC30 == <<1073741824, 1072592342, 1069148819, 1063426000, 1055448391, 1045250154, 
   1032874959, 1018375799, 1001814760, 983262761, 962799243, 940511835, 
   916495974, 890854501, 863697216, 835140410, 805306368, 774322844, 742322515, 
   709442411, 675823329, 641609231, 606946628, 571983950, 536870912, 501757874, 
   466795196, 432132593, 397918495, 364299413, 331419309, 299418980, 268435456, 
   238601414, 210044608, 182887323, 157245850, 133229989, 110942581, 90479063, 
   71927064, 55366025, 40866865, 28491670, 18293433, 10315824, 4593005, 
   1149482, 0>> 
KerP30 == <<1073741824, 1072015963, 1067283920, 1060040309, 1050625718, 1039284215, 
   1026195370, 1011493314, 995278644, 977626117, 958589714, 938205951, 
   916495974, 893466709, 869111229, 843408389, 816321673, 787797100, 757759914, 
   726109516, 692711777, 657387125, 619891493, 579884293, 536870912, 493857531, 
   453850331, 416354699, 381030047, 347632308, 315981910, 285944724, 257420151, 
   230333435, 204630595, 180275115, 157245850, 135535873, 115152110, 96115707, 
   78463180, 62248510, 47546454, 34457609, 23116106, 13701515, 6457904, 
   1725861, 0>> 
\* the same at 2^28
LogG28 == <<0, 14806604, 23467913, 29613209, 34379871, 38274517, 41567394, 44419813, 
   46935826, 49186475, 51222436, 53081122, 54790947, 56373998, 57847784, 
   59226418, 60521446, 61742430, 62897383, 63993080, 65035307, 66029040, 
   66978593, 67887726, 68759742, 69597552, 70403739, 71180603, 71930203, 
   72654388, 73354825, 74033022, 74690349, 75328050, 75947265, 76549035, 
   77134316, 77703987, 78258860, 78799684, 79327154, 79841911, 80344556, 
   80835645, 81315697, 81785197, 82244600, 82694331, 83134788, 83566346, 
   83989359, 84404156, 84811053, 85210343, 85602307, 85987207, 86365295, 
   86736808, 87101969, 87460993, 87814082, 88161430, 88503220, 88839627, 
   89170818, 89496953, 89818183, 90134655, 90446506, 90753869, 91056873, 
   91355639, 91650284, 91940920, 92227655, 92510592, 92789830, 93065465, 
   93337588, 93606289, 93871651, 94133758, 94392687, 94648516, 94901317, 
   95151161, 95398116, 95642249, 95883624, 96122301, 96358341, 96591802, 
   96822738, 97051205, 97277254, 97500935, 97722299, 97941392, 98158261, 
   98372951, 98585504, 98795963, 99004369, 99210761, 99415178, 99617657, 
   99818235, 100016948, 100213828, 100408911, 100602228, 100793812, 100983692, 
   101171900, 101358464, 101543412, 101726773, 101908573, 102088840, 102267597, 
   102444871, 102620687, 102795066, 102968034, 103139613, 103309824, 103478690, 
   103646231, 103812469, 103977423, 104141113, 104303558, 104464777, 104624788, 
   104783610, 104941259, 105097754, 105253110, 105407345, 105560474, 105712513, 
   105863478, 106013383, 106162244, 106310074, 106456889, 106602701, 106747525, 
   106891373, 107034259, 107176196, 107317196, 107457271, 107596434, 107734696, 
   107872069, 108008564, 108144193, 108278966, 108412893, 108545987, 108678256, 
   108809711, 108940363, 109070220, 109199292, 109327589, 109455120, 109581895, 
   109707921, 109833208, 109957765, 110081600, 110204721, 110327136, 110448854, 
   110569882, 110690228, 110809900, 110928906, 111047252, 111164946, 111281995, 
   111398406, 111514187, 111629343, 111743881, 111857809, 111971133, 112083858, 
   112195992, 112307540, 112418508, 112528904, 112638731, 112747997, 112856707, 
   112964866, 113072480, 113179555, 113286096, 113392108, 113497597, 113602567, 
   113707024, 113810973, 113914418, 114017365, 114119818, 114221782, 114323262, 
   114424262, 114524786, 114624840, 114724427, 114823552, 114922219, 115020433, 
   115118197, 115215516, 115312393, 115408833, 115504839, 115600416, 115695568, 
   115790297, 115884608, 115978504, 116071990, 116165068, 116257743, 116350017, 
   116441894, 116533378, 116624471, 116715178, 116805501, 116895444, 116985010, 
   117074202, 117163023, 117251476, 117339564, 117427291, 117514659, 117601671, 
   117688330, 117774639, 117860600, 117946217, 118031493, 118116429, 118201028, 
   118285295, 118369229, 118452836, 118536116, 118619073, 118701710, 118784027, 
   118866029, 118947717, 119029094, 119110162, 119190924, 119271381, 119351537, 
   119431392, 119510951, 119590214, 119669184, 119747864, 119826254, 119904358, 
   119982178, 120059715, 120136971, 120213949, 120290651, 120367078, 120443233, 
   120519118, 120594733, 120670082, 120745166, 120819988, 120894548, 120968848, 
   121042891, 121116679, 121190212, 121263493, 121336524, 121409305, 121481840, 
   121554129, 121626174, 121697977, 121769540, 121840864, 121911950, 121982801, 
   122053417, 122123801, 122193953, 122263876, 122333571, 122403039, 122472282, 
   122541301, 122610098, 122678674, 122747030, 122815169, 122883091, 122950797, 
   123018290, 123085570, 123152639, 123219498, 123286148, 123352591, 123418828, 
   123484860, 123550689, 123616316, 123681741, 123746967, 123811994, 123876824, 
   123941458, 124005896, 124070141, 124134194, 124198054, 124261725, 124325206, 
   124388499, 124451605, 124514526, 124577261, 124639813, 124702182, 124764370, 
   124826377, 124888204, 124949853, 125011325, 125072620, 125133740, 125194686, 
   125255458, 125316058, 125376486, 125436744, 125496833, 125556752, 125616505, 
   125676090, 125735510, 125794765, 125853856, 125912784, 125971550, 126030155, 
   126088599, 126146884, 126205011, 126262979, 126320791, 126378447, 126435947, 
   126493293, 126550486, 126607526, 126664414, 126721151, 126777737, 126834174, 
   126890462, 126946603, 127002596, 127058443, 127114144, 127169701, 127225113, 
   127280382, 127335508, 127390492, 127445336, 127500038, 127554601, 127609025, 
   127663311, 127717459, 127771470, 127825345, 127879085, 127932689, 127986160, 
   128039497, 128092701, 128145773, 128198713, 128251522, 128304202, 128356751, 
   128409172, 128461464, 128513629, 128565667, 128617578, 128669363, 128721023, 
   128772558, 128823970, 128875258, 128926423, 128977466, 129028387, 129079187, 
   129129866, 129180426, 129230866, 129281188, 129331391, 129381476, 129431444, 
   129481296, 129531031, 129580652, 129630157, 129679547, 129728824, 129777987, 
   129827037, 129875975, 129924801, 129973516, 130022120, 130070614, 130118997, 
   130167272, 130215437, 130263495, 130311444, 130359286, 130407021, 130454649, 
   130502172, 130549589, 130596901, 130644109, 130691212, 130738212, 130785109, 
   130831903, 130878594, 130925184, 130971673, 131018060, 131064347, 131110534, 
   131156621, 131202609, 131248498, 131294289, 131339982, 131385577, 131431076, 
   131476477, 131521782, 131566992, 131612106, 131657124, 131702049, 131746878, 
   131791614, 131836257, 131880806, 131925263, 131969627, 132013900, 132058080, 
   132102170, 132146169, 132190077, 132233896, 132277624, 132321263, 132364814, 
   132408275, 132451649, 132494934, 132538132, 132581243, 132624267, 132667205, 
   132710056, 132752822, 132795502, 132838097, 132880607, 132923033, 132965375, 
   133007633, 133049808, 133091899, 133133908, 133175834, 133217678, 133259440, 
   133301121, 133342721, 133384240, 133425678, 133467036, 133508314, 133549513, 
   133590632, 133631672, 133672633, 133713517, 133754322, 133795049, 133835698, 
   133876271, 133916767, 133957185, 133997528, 134037795, 134077986, 134118101, 
   134158141, 134198106, 134237997, 134277813, 134317555, 134357224, 134396819, 
   134436340, 134475789, 134515165, 134554468, 134593699, 134632859, 134671946, 
   134710963, 134749908, 134788782, 134827586, 134866319, 134904982, 134943576, 
   134982099, 135020554, 135058939, 135097256, 135135503, 135173683, 135211794, 
   135249838, 135287814, 135325722, 135363563, 135401338, 135439045, 135476687, 
   135514262, 135551771, 135589214, 135626592, 135663905, 135701152, 135738335, 
   135775453, 135812506, 135849496, 135886421, 135923283, 135960081, 135996816, 
   136033488, 136070098, 136106644, 136143128, 136179550, 136215910, 136252208, 
   136288444, 136324620, 136360734, 136396787, 136432779, 136468711, 136504582, 
   136540393, 136576145, 136611836, 136647468, 136683041, 136718555, 136754009, 
   136789405, 136824742, 136860021, 136895242, 136930405, 136965510, 137000557, 
   137035548, 137070480, 137105356, 137140175, 137174937, 137209643, 137244293, 
   137278886, 137313424, 137347905, 137382331, 137416702, 137451018, 137485278, 
   137519484, 137553635, 137587731, 137621773, 137655761, 137689695, 137723575, 
   137757402, 137791175, 137824894, 137858561, 137892175, 137925735, 137959243, 
   137992699, 138026102, 138059453, 138092753, 138126000, 138159196, 138192340, 
   138225433, 138258474, 138291465, 138324405, 138357294, 138390132, 138422920, 
   138455658, 138488346, 138520983, 138553571, 138586110, 138618599, 138651038, 
   138683428, 138715770, 138748062, 138780306, 138812501, 138844647, 138876746, 
   138908796, 138940798, 138972752, 139004659, 139036518, 139068329, 139100093, 
   139131810, 139163480, 139195104, 139226680, 139258210, 139289693, 139321130, 
   139352521, 139383866, 139415164, 139446417, 139477625, 139508786, 139539903, 
   139570974, 139602000, 139632981, 139663917, 139694809, 139725655, 139756458, 
   139787216, 139817930, 139848599, 139879225, 139909807, 139940345, 139970839, 
   140001290, 140031698, 140062063, 140092384, 140122662, 140152898, 140183091, 
   140213241, 140243349, 140273414, 140303437, 140333418, 140363357, 140393254, 
   140423109, 140452923, 140482695, 140512425, 140542115, 140571763, 140601370, 
   140630936, 140660461, 140689945, 140719389, 140748792, 140778155, 140807477, 
   140836759, 140866002, 140895204, 140924366, 140953489, 140982572, 141011615, 
   141040619, 141069584, 141098509, 141127395, 141156243, 141185051, 141213821, 
   141242552, 141271244, 141299898, 141328513, 141357090, 141385629, 141414130, 
   141442593, 141471018, 141499405, 141527755, 141556067, 141584342, 141612579, 
   141640779, 141668941, 141697067, 141725156, 141753207, 141781222, 141809201, 
   141837142, 141865048, 141892916, 141920749, 141948545, 141976305, 142004029, 
   142031717, 142059370, 142086986, 142114567, 142142113, 142169622, 142197097, 
   142224536, 142251940, 142279309, 142306643, 142333942, 142361206, 142388435, 
   142415630, 142442790, 142469916, 142497007, 142524064, 142551086, 142578075, 
   142605029, 142631950, 142658836, 142685689, 142712508, 142739294, 142766046, 
   142792764, 142819449, 142846101, 142872720, 142899305, 142925858, 142952377, 
   142978864, 143005317, 143031738, 143058127, 143084483, 143110806, 143137097, 
   143163356, 143189582, 143215776, 143241939, 143268069, 143294167, 143320233, 
   143346268, 143372271, 143398242, 143424182, 143450090, 143475967, 143501813, 
   143527627, 143553411, 143579163, 143604884, 143630574, 143656234, 143681862, 
   143707460, 143733027, 143758564, 143784070, 143809546, 143834991, 143860406, 
   143885791, 143911146, 143936471, 143961766, 143987030, 144012265, 144037471, 
   144062646, 144087792, 144112908, 144137995, 144163052, 144188081, 144213079, 
   144238049, 144262989, 144287900, 144312783, 144337636, 144362460, 144387256, 
   144412023, 144436761, 144461471, 144486152, 144510804, 144535428, 144560024, 
   144584591, 144609131, 144633642, 144658125, 144682580, 144707007, 144731406, 
   144755777, 144780121, 144804436, 144828725, 144852985, 144877218, 144901424, 
   144925602, 144949753, 144973876, 144997973, 145022042, 145046084, 145070099, 
   145094087, 145118048, 145141983, 145165890, 145189771, 145213625, 145237453, 
   145261254, 145285028, 145308777, 145332498, 145356194, 145379863, 145403506, 
   145427123, 145450713, 145474278, 145497817, 145521330, 145544817, 145568278, 
   145591713, 145615123, 145638507, 145661866, 145685199, 145708507, 145731789, 
   145755046, 145778277, 145801483, 145824665, 145847821, 145870952, 145894057, 
   145917138, 145940194, 145963226, 145986232, 146009214, 146032171, 146055103, 
   146078010, 146100894, 146123752, 146146587, 146169396, 146192182, 146214943, 
   146237680, 146260393, 146283082, 146305746, 146328387, 146351004, 146373596, 
   146396165, 146418710, 146441231, 146463729, 146486203, 146508653, 146531080, 
   146553483, 146575863, 146598219, 146620552, 146642861, 146665148, 146687411, 
   146709651, 146731867, 146754061, 146776232, 146798379, 146820504, 146842606, 
   146864685, 146886741, 146908775, 146930785, 146952773, 146974739, 146996682, 
   147018602, 147040500, 147062375, 147084229, 147106059, 147127868, 147149654, 
   147171418, 147193160, 147214880, 147236578, 147258253, 147279907, 147301539, 
   147323149, 147344737, 147366303, 147387848, 147409371, 147430872, 147452351, 
   147473809, 147495246, 147516661, 147538054, 147559426, 147580777, 147602106, 
   147623415, 147644702, 147665967, 147687212, 147708435, 147729638, 147750819, 
   147771979, 147793119, 147814237, 147835335, 147856412, 147877468, 147898503, 
   147919518, 147940512, 147961486, 147982438, 148003371, 148024283, 148045174, 
   148066045, 148086895, 148107726, 148128536, 148149325, 148170095, 148190844, 
   148211573, 148232282, 148252971, 148273640, 148294289, 148314919, 148335528, 
   148356117, 148376686, 148397236, 148417766, 148438276, 148458767, 148479238, 
   148499689, 148520121, 148540533, 148560926, 148581299, 148601653, 148621988, 
   148642303, 148662599, 148682875, 148703133, 148723371, 148743590, 148763790, 
   148783971, 148804133, 148824275, 148844399, 148864504, 148884590, 148904657, 
   148924705, 148944735, 148964745, 148984737, 149004711, 149024665, 149044601, 
   149064519, 149084418, 149104298, 149124160, 149144003, 149163828, 149183635, 
   149203423, 149223193, 149242945, 149262678, 149282393, 149302090, 149321769, 
   149341430, 149361073, 149380697, 149400304, 149419892, 149439463, 149459016, 
   149478551, 149498068, 149517567, 149537049, 149556512, 149575958, 149595387, 
   149614797, 149634190, 149653566, 149672924, 149692264, 149711587, 149730892, 
   149750180, 149769451, 149788704, 149807940, 149827158, 149846360, 149865544, 
   149884710, 149903860, 149922992, 149942108, 149961206, 149980287, 149999352, 
   150018399, 150037429, 150056442, 150075439, 150094418, 150113381, 150132327, 
   150151256, 150170168, 150189063, 150207942, 150226804, 150245650, 150264479, 
   150283291, 150302087, 150320866, 150339629, 150358375, 150377105, 150395819, 
   150414516, 150433196, 150451861, 150470509, 150489141, 150507756, 150526356, 
   150544939, 150563506, 150582057, 150600592, 150619111, 150637614, 150656100, 
   150674571, 150693026, 150711465, 150729888, 150748295, 150766686, 150785061, 
   150803421, 150821765, 150840093, 150858405, 150876702, 150894983, 150913248, 
   150931498, 150949733, 150967951, 150986154, 151004342, 151022514, 151040671, 
   151058812, 151076938, 151095049, 151113144, 151131224, 151149289, 151167338, 
   151185372, 151203391, 151221395, 151239383, 151257357, 151275315, 151293258, 
   151311186, 151329100, 151346998, 151364881, 151382749, 151400602, 151418441, 
   151436264, 151454073, 151471866, 151489645, 151507410, 151525159, 151542894, 
   151560614, 151578319, 151596010, 151613685, 151631347, 151648994, 151666626, 
   151684243, 151701847, 151719435, 151737009, 151754569, 151772115, 151789645, 
   151807162, 151824664, 151842152, 151859626, 151877085, 151894530, 151911961, 
   151929377, 151946780, 151964168, 151981542, 151998902, 152016248, 152033579, 
   152050897, 152068201, 152085491, 152102766, 152120028, 152137276, 152154510, 
   152171730, 152188936, 152206128, 152223307, 152240471, 152257622, 152274759, 
   152291883, 152308992, 152326088, 152343171, 152360239, 152377294, 152394336, 
   152411363, 152428378, 152445378, 152462366, 152479339, 152496300, 152513246, 
   152530180, 152547100, 152564006, 152580899, 152597779, 152614646, 152631499, 
   152648339, 152665165, 152681979, 152698779, 152715566, 152732340, 152749100, 
   152765848, 152782582, 152799304, 152816012, 152832707, 152849389, 152866058, 
   152882714, 152899357, 152915987, 152932604, 152949209, 152965800, 152982379, 
   152998944, 153015497, 153032037, 153048564, 153065079, 153081580, 153098069, 
   153114546, 153131009, 153147460, 153163898, 153180324, 153196737, 153213137, 
   153229525, 153245900, 153262263, 153278613, 153294950, 153311275, 153327588, 
   153343888, 153360176, 153376451, 153392714, 153408965, 153425203, 153441429, 
   153457643, 153473844, 153490033, 153506210, 153522374, 153538527, 153554667, 
   153570795, 153586910, 153603014, 153619105, 153635185, 153651252, 153667307, 
   153683350, 153699381, 153715400, 153731407, 153747403, 153763386, 153779357, 
   153795316, 153811263, 153827199, 153843122, 153859034, 153874934, 153890822, 
   153906698, 153922562, 153938415, 153954256, 153970085, 153985902, 154001708, 
   154017502, 154033284, 154049055, 154064814, 154080562, 154096298, 154112022, 
   154127735, 154143436, 154159125, 154174803, 154190470, 154206125, 154221769, 
   154237401, 154253022, 154268631, 154284229, 154299816, 154315391, 154330955, 
   154346507, 154362049, 154377578, 154393097, 154408604, 154424101, 154439586, 
   154455059, 154470522, 154485973, 154501413, 154516842, 154532260, 154547667, 
   154563062, 154578447, 154593820, 154609183, 154624534, 154639874, 154655204, 
   154670522, 154685829, 154701126, 154716411, 154731686, 154746949, 154762202, 
   154777444, 154792675, 154807895, 154823104, 154838303, 154853490, 154868667, 
   154883833, 154898988, 154914133, 154929267, 154944390, 154959502, 154974604, 
   154989695, 155004776, 155019845, 155034905, 155049953, 155064991, 155080019, 
   155095035, 155110042, 155125037, 155140023, 155154997, 155169961, 155184915, 
   155199858, 155214791, 155229714, 155244626, 155259527, 155274418, 155289299, 
   155304170, 155319030, 155333880, 155348719, 155363548, 155378367, 155393176, 
   155407974, 155422762, 155437540, 155452308, 155467065, 155481812, 155496550, 
   155511276, 155525993, 155540700, 155555396, 155570083, 155584759, 155599426, 
   155614082, 155628728, 155643364, 155657990, 155672606, 155687212, 155701808, 
   155716395, 155730971, 155745537, 155760093, 155774640, 155789176, 155803703, 
   155818220, 155832727, 155847224, 155861711, 155876188, 155890656, 155905114, 
   155919562, 155934000, 155948428, 155962847, 155977256, 155991656, 156006045, 
   156020425, 156034795, 156049156, 156063507, 156077848, 156092180, 156106502, 
   156120815, 156135118, 156149411, 156163695, 156177969, 156192234, 156206489, 
   156220735, 156234971, 156249198, 156263415, 156277623, 156291821, 156306010, 
   156320189, 156334359, 156348520, 156362671, 156376813, 156390946, 156405069, 
   156419183, 156433288, 156447383, 156461469, 156475546, 156489613, 156503671, 
   156517720, 156531760, 156545791, 156559812, 156573824, 156587827, 156601821, 
   156615805, 156629781, 156643747, 156657704, 156671652, 156685591, 156699521, 
   156713442, 156727353, 156741256, 156755149, 156769034, 156782910, 156796776, 
   156810634, 156824482, 156838322, 156852153, 156865974, 156879787, 156893591, 
   156907386, 156921172, 156934949, 156948717, 156962476, 156976227, 156989969, 
   157003701, 157017425, 157031141, 157044847, 157058545, 157072233, 157085913, 
   157099585, 157113247, 157126901, 157140546, 157154183, 157167810, 157181429, 
   157195040, 157208641, 157222234, 157235819, 157249394, 157262962, 157276520, 
   157290070, 157303611, 157317144, 157330668, 157344184, 157357691, 157371189, 
   157384679, 157398161, 157411634, 157425098, 157438554, 157452002, 157465441, 
   157478872, 157492294, 157505708, 157519113, 157532510, 157545898, 157559279, 
   157572650, 157586014, 157599369, 157612716, 157626054, 157639384, 157652706, 
   157666019, 157679324, 157692621, 157705910, 157719190, 157732462, 157745726, 
   157758982, 157772229, 157785468, 157798699, 157811922, 157825137, 157838343, 
   157851541, 157864731, 157877913, 157891087, 157904253, 157917411, 157930560, 
   157943702, 157956835, 157969960, 157983077, 157996187, 158009288, 158022381, 
   158035466, 158048543, 158061612, 158074673, 158087726, 158100772, 158113809, 
   158126838, 158139859, 158152873, 158165878, 158178876, 158191865, 158204847, 
   158217821, 158230787, 158243745, 158256695, 158269637, 158282572, 158295499, 
   158308418, 158321329, 158334232, 158347127, 158360015, 158372895, 158385767, 
   158398632, 158411488, 158424337, 158437179, 158450012, 158462838, 158475656, 
   158488467, 158501269, 158514065, 158526852, 158539632, 158552404, 158565168, 
   158577925, 158590675, 158603416, 158616150, 158628877, 158641596, 158654307, 
   158667011, 158679707, 158692396, 158705077, 158717751, 158730417, 158743075, 
   158755726, 158768370, 158781006, 158793635, 158806256, 158818870, 158831476, 
   158844075, 158856667, 158869251, 158881827, 158894396, 158906958, 158919513, 
   158932060, 158944600, 158957132, 158969657, 158982175, 158994685, 159007188, 
   159019684, 159032172, 159044653, 159057127, 159069594, 159082053, 159094505, 
   159106950, 159119387, 159131817, 159144240, 159156656, 159169065, 159181466, 
   159193860, 159206247, 159218627, 159231000, 159243366, 159255724, 159268075, 
   159280419, 159292756, 159305086, 159317409, 159329724, 159342033, 159354334, 
   159366628, 159378916, 159391196, 159403469, 159415735, 159427994, 159440246, 
   159452491, 159464729, 159476960, 159489184, 159501401, 159513611, 159525814, 
   159538010, 159550200, 159562382, 159574557, 159586725, 159598887, 159611041, 
   159623188, 159635329, 159647463, 159659590, 159671710, 159683823, 159695929, 
   159708028, 159720121, 159732206, 159744285, 159756357, 159768422, 159780481, 
   159792532, 159804577, 159816615, 159828646, 159840671, 159852688, 159864699, 
   159876704, 159888701, 159900692, 159912676, 159924653, 159936623, 159948587, 
   159960544, 159972495, 159984439, 159996376, 160008306, 160020230, 160032147, 
   160044057, 160055961, 160067858, 160079749, 160091633, 160103510, 160115381, 
   160127245, 160139103, 160150954, 160162798, 160174636, 160186467, 160198292, 
   160210110, 160221922, 160233727, 160245526, 160257318, 160269104, 160280883, 
   160292655, 160304421, 160316181, 160327934, 160339681, 160351421, 160363155, 
   160374882, 160386603, 160398318, 160410026, 160421728, 160433423, 160445112, 
   160456794, 160468470, 160480140, 160491803, 160503460, 160515111, 160526755, 
   160538393, 160550025, 160561650, 160573269, 160584882, 160596488, 160608088, 
   160619682, 160631269, 160642850, 160654425, 160665994, 160677556, 160689112, 
   160700662, 160712206, 160723743, 160735274, 160746799, 160758318, 160769830, 
   160781336, 160792836, 160804330, 160815818, 160827300, 160838775, 160850244, 
   160861707, 160873164, 160884615, 160896060, 160907498, 160918931, 160930357, 
   160941777, 160953191, 160964599, 160976001, 160987397, 160998786, 161010170, 
   161021548, 161032919, 161044285, 161055644, 161066997, 161078345, 161089686, 
   161101021, 161112351, 161123674, 161134991, 161146303, 161157608, 161168907, 
   161180201, 161191488, 161202770, 161214045, 161225315, 161236578, 161247836, 
   161259088, 161270333, 161281573, 161292807, 161304035, 161315258, 161326474, 
   161337684, 161348889, 161360087, 161371280, 161382467, 161393648, 161404823, 
   161415993, 161427156, 161438314, 161449466, 161460612, 161471752, 161482887, 
   161494015, 161505138, 161516255, 161527366, 161538472, 161549572, 161560666, 
   161571754, 161582836, 161593913, 161604984, 161616049, 161627109, 161638162, 
   161649210, 161660253, 161671289, 161682320, 161693346, 161704365, 161715379, 
   161726387, 161737390, 161748387, 161759378, 161770363, 161781343, 161792318, 
   161803286, 161814249, 161825207, 161836158, 161847104, 161858045, 161868980, 
   161879909, 161890833, 161901751, 161912664, 161923571, 161934472, 161945368, 
   161956259, 161967143, 161978023, 161988896, 161999765, 162010627, 162021484, 
   162032336, 162043182, 162054023, 162064858, 162075687, 162086512, 162097330, 
   162108143, 162118951, 162129753, 162140550, 162151341, 162162127, 162172908, 
   162183683, 162194452, 162205216, 162215975, 162226728, 162237476, 162248219, 
   162258956, 162269687, 162280414, 162291135, 162301850, 162312560, 162323265, 
   162333965, 162344659, 162355347, 162366031>> 
Ln2G28 == 29613209
Reg28 == 45814465
InvG32 == <<341782638, 241676821, 197328298, 170891319, 152849842, 139532178, 
   129181695, 120838410, 113927546, 108081160, 103051343, 98664149, 94793448, 
   91345252, 88247898, 85445659, 82894466, 80558940, 78410315, 76424921, 
   74583086, 72868303, 71266606, 69766089, 68356528, 67029090, 65776099, 
   64590847, 63467443, 62400687, 61385974, 60419205, 59496720, 58615239, 
   57771810, 56963773, 56188720, 55444465, 54729023, 54040580, 53377480, 
   52738206, 52121364, 51525671, 50949947, 50393101, 49854122, 49332074, 
   48826091, 48335364, 47859142, 47396724, 46947456, 46510726, 46085961, 
   45672626, 45270216, 44878259, 44496309, 44123949, 43760783, 43406438, 
   43060565, 42722830, 42392919, 42070534, 41755395, 41447233, 41145794, 
   40850839, 40562137, 40279470, 40002632, 39731425, 39465660, 39205157, 
   38949746, 38699263, 38453551, 38212461, 37975849, 37743578, 37515518, 
   37291543, 37071532, 36855370, 36642945, 36434152, 36228887, 36027053, 
   35828556, 35633303, 35441209, 35252187, 35066159, 34883044, 34702769, 
   34525260, 34350448, 34178264, 34008644, 33841524, 33676844, 33514545, 
   33354570, 33196864, 33041375, 32888050, 32736839, 32587696, 32440572, 
   32295424, 32152206, 32010877, 31871395, 31733721, 31597816, 31463642, 
   31331163, 31200343, 31071149, 30943546, 30817503, 30692987, 30569968, 
   30448417, 30328305, 30209603, 30092283, 29976320, 29861688, 29748360, 
   29636313, 29525523, 29415966, 29307619, 29200461, 29094470, 28989625, 
   28885905, 28783291, 28681762, 28581300, 28481886, 28383503, 28286132, 
   28189757, 28094360, 27999925, 27906436, 27813877, 27722233, 27631489, 
   27541630, 27452642, 27364511, 27277224, 27190767, 27105126, 27020290, 
   26936245, 26852980, 26770482, 26688740, 26607742, 26527477, 26447935, 
   26369103, 26290972, 26213532, 26136772, 26060682, 25985253, 25910475, 
   25836339, 25762836, 25689956, 25617692, 25546034, 25474974, 25404503, 
   25334615, 25265300, 25196550, 25128359, 25060719, 24993622, 24927061, 
   24861029, 24795519, 24730524, 24666037, 24602053, 24538563, 24475563, 
   24413046, 24351005, 24289434, 24228329, 24167682, 24107489, 24047742, 
   23988438, 23929571, 23871135, 23813125, 23755535, 23698362, 23641599, 
   23585243, 23529287, 23473728, 23418560, 23363780, 23309382, 23255363, 
   23201717, 23148441, 23095530, 23042981, 22990788, 22938949, 22887458, 
   22836313, 22785509, 22735043, 22684910, 22635108, 22585632, 22536480, 
   22487647, 22439129, 22390925, 22343030, 22295441, 22248155, 22201168, 
   22154478, 22108081, 22061974, 22016155, 21970620, 21925366, 21880391, 
   21835692, 21791265, 21747108, 21703219, 21659595, 21616232, 21573129, 
   21530282, 21487690, 21445350, 21403259, 21361415, 21319815, 21278458, 
   21237340, 21196459, 21155814, 21115402, 21075220, 21035267, 20995541, 
   20956038, 20916758, 20877697, 20838855, 20800229, 20761817, 20723616, 
   20685626, 20647844, 20610269, 20572897, 20535728, 20498760, 20461991, 
   20425419, 20389043, 20352860, 20316869, 20281068, 20245456, 20210031, 
   20174791, 20139735, 20104861, 20070168, 20035653, 20001316, 19967155, 
   19933168, 19899355, 19865712, 19832240, 19798937, 19765800, 19732830, 
   19700024, 19667381, 19634900, 19602579, 19570417, 19538413, 19506565, 
   19474873, 19443335, 19411949, 19380715, 19349632, 19318697, 19287910, 
   19257270, 19226776, 19196425, 19166219, 19136154, 19106230, 19076447, 
   19046802, 19017295, 18987924, 18958690, 18929590, 18900623, 18871789, 
   18843087, 18814515, 18786073, 18757759, 18729573, 18701514, 18673580, 
   18645772, 18618087, 18590525, 18563085, 18535766, 18508568, 18481488, 
   18454528, 18427685, 18400959, 18374348, 18347853, 18321473, 18295205, 
   18269050, 18243008, 18217076, 18191254, 18165542, 18139939, 18114444, 
   18089055, 18063774, 18038598, 18013527, 17988560, 17963697, 17938936, 
   17914278, 17889721, 17865265, 17840908, 17816652, 17792493, 17768433, 
   17744470, 17720604, 17696834, 17673159, 17649580, 17626094, 17602701, 
   17579402, 17556195, 17533079, 17510055, 17487121, 17464277, 17441522, 
   17418856, 17396278, 17373788, 17351385, 17329068, 17306837, 17284691, 
   17262630, 17240653, 17218761, 17196951, 17175224, 17153579, 17132016, 
   17110533, 17089132, 17067810, 17046569, 17025406, 17004322, 16983316, 
   16962388, 16941536, 16920762, 16900064, 16879441, 16858894, 16838422, 
   16818024, 16797700, 16777450, 16757272, 16737168, 16717135, 16697174, 
   16677285, 16657467, 16637718, 16618041, 16598432, 16578893, 16559423, 
   16540021, 16520687, 16501421, 16482222, 16463090, 16444025, 16425025, 
   16406092, 16387223, 16368420, 16349681, 16331006, 16312395, 16293848, 
   16275364, 16256942, 16238583, 16220286, 16202051, 16183877, 16165764, 
   16147712, 16129720, 16111788, 16093916, 16076103, 16058349, 16040654, 
   16023017, 16005438, 15987917, 15970454, 15953047, 15935698, 15918404, 
   15901167, 15883986, 15866861, 15849790, 15832775, 15815814, 15798908, 
   15782056, 15765257, 15748513, 15731821, 15715182, 15698596, 15682063, 
   15665582, 15649152, 15632774, 15616447, 15600172, 15583947, 15567773, 
   15551649, 15535574, 15519550, 15503575, 15487650, 15471773, 15455945, 
   15440166, 15424435, 15408751, 15393116, 15377528, 15361987, 15346493, 
   15331047, 15315646, 15300292, 15284984, 15269722, 15254506, 15239335, 
   15224209, 15209128, 15194092, 15179100, 15164152, 15149249, 15134390, 
   15119574, 15104801, 15090072, 15075386, 15060742, 15046142, 15031583, 
   15017067, 15002593, 14988160, 14973769, 14959420, 14945111, 14930844, 
   14916617, 14902431, 14888286, 14874180, 14860115, 14846089, 14832103, 
   14818157, 14804249, 14790381, 14776552, 14762761, 14749009, 14735296, 
   14721620, 14707983, 14694383, 14680821, 14667297, 14653810, 14640360, 
   14626947, 14613570, 14600231, 14586928, 14573661, 14560430, 14547235, 
   14534076, 14520953, 14507865, 14494812, 14481795, 14468813, 14455865, 
   14442953, 14430074, 14417230, 14404421, 14391645, 14378904, 14366196, 
   14353522, 14340881, 14328274, 14315699, 14303158, 14290650, 14278175, 
   14265732, 14253321, 14240943, 14228597, 14216284, 14204002, 14191752, 
   14179533, 14167346, 14155191, 14143066, 14130973, 14118911, 14106879, 
   14094878, 14082908, 14070969, 14059059, 14047180, 14035331, 14023511, 
   14011722, 13999962, 13988232, 13976531, 13964860, 13953218, 13941605, 
   13930020, 13918465, 13906938, 13895440, 13883971, 13872529, 13861116, 
   13849731, 13838375, 13827046, 13815744, 13804471, 13793225, 13782006, 
   13770815, 13759651, 13748514, 13737404, 13726321, 13715265, 13704235, 
   13693232, 13682256, 13671306, 13660382, 13649484, 13638612, 13627766, 
   13616946, 13606152, 13595383, 13584640, 13573923, 13563230, 13552563, 
   13541921, 13531304, 13520712, 13510145, 13499603, 13489085, 13478591, 
   13468123, 13457678, 13447258, 13436862, 13426490, 13416142, 13405818, 
   13395518, 13385241, 13374988, 13364759, 13354553, 13344370, 13334211, 
   13324074, 13313961, 13303871, 13293804, 13283759, 13273738, 13263739, 
   13253762, 13243808, 13233877, 13223967, 13214080, 13204215, 13194372, 
   13184551, 13174752, 13164975, 13155220, 13145486, 13135774, 13126083, 
   13116414, 13106766, 13097139, 13087534, 13077949, 13068386, 13058843, 
   13049322, 13039821, 13030341, 13020881, 13011443, 13002024, 12992626, 
   12983249, 12973892, 12964554, 12955237, 12945941, 12936664, 12927407, 
   12918169, 12908952, 12899754, 12890576, 12881418, 12872279, 12863159, 
   12854059, 12844978, 12835916, 12826874, 12817850, 12808846, 12799860, 
   12790894, 12781946, 12773017, 12764107, 12755215, 12746342, 12737487, 
   12728651, 12719833, 12711033, 12702252, 12693489, 12684743, 12676016, 
   12667307, 12658616, 12649943, 12641288, 12632650, 12624030, 12615427, 
   12606843, 12598275, 12589725, 12581193, 12572678, 12564180, 12555699, 
   12547235, 12538789, 12530359, 12521947, 12513551, 12505173, 12496811, 
   12488466, 12480137, 12471826, 12463530, 12455252, 12446990, 12438744, 
   12430514, 12422301, 12414104, 12405924, 12397759, 12389611, 12381479, 
   12373362, 12365262, 12357177, 12349109, 12341056, 12333019, 12324997, 
   12316991, 12309001, 12301026, 12293067, 12285123, 12277195, 12269282, 
   12261384, 12253501, 12245634, 12237782, 12229944, 12222122, 12214315, 
   12206523, 12198745, 12190983, 12183235, 12175502, 12167784, 12160081, 
   12152392, 12144717, 12137057, 12129412, 12121781, 12114164, 12106562, 
   12098974, 12091401, 12083841, 12076296, 12068765, 12061247, 12053744, 
   12046255, 12038780, 12031319, 12023871, 12016438, 12009018, 12001612, 
   11994219, 11986840, 11979475, 11972124, 11964786, 11957461, 11950150, 
   11942852, 11935567, 11928296, 11921038, 11913794, 11906562, 11899344, 
   11892139, 11884947, 11877768, 11870602, 11863449, 11856308, 11849181, 
   11842067, 11834965, 11827876, 11820800, 11813736, 11806685, 11799647, 
   11792621, 11785608, 11778608, 11771619, 11764644, 11757680, 11750729, 
   11743790, 11736864, 11729950, 11723048, 11716158, 11709280, 11702415, 
   11695561, 11688720, 11681890, 11675073, 11668267, 11661473, 11654691, 
   11647921, 11641163, 11634416, 11627681, 11620958, 11614247, 11607547, 
   11600859, 11594182, 11587517, 11580863, 11574221, 11567590, 11560970, 
   11554362, 11547765, 11541180, 11534605, 11528042, 11521490, 11514950, 
   11508420, 11501902, 11495394, 11488898, 11482412, 11475938, 11469474, 
   11463022, 11456580, 11450149, 11443729, 11437320, 11430921, 11424534, 
   11418157, 11411790, 11405434, 11399089, 11392755, 11386431, 11380117, 
   11373814, 11367521, 11361239, 11354968, 11348706, 11342455, 11336215, 
   11329984, 11323764, 11317554, 11311354, 11305165, 11298985, 11292816, 
   11286657, 11280508, 11274369, 11268240, 11262121, 11256012, 11249913, 
   11243823, 11237744, 11231674, 11225615, 11219565, 11213525, 11207494, 
   11201474, 11195463, 11189461, 11183470, 11177487, 11171515, 11165552, 
   11159599, 11153655, 11147720, 11141796, 11135880, 11129974, 11124077, 
   11118190, 11112312, 11106443, 11100584, 11094734, 11088893, 11083061, 
   11077239, 11071426, 11065621, 11059826, 11054040, 11048264, 11042496, 
   11036737, 11030987, 11025246, 11019515, 11013792, 11008078, 11002372, 
   10996676, 10990989, 10985310, 10979640, 10973979, 10968327, 10962683, 
   10957048, 10951422, 10945805, 10940196, 10934595, 10929004, 10923420, 
   10917846, 10912280, 10906722, 10901173, 10895633, 10890100, 10884577, 
   10879061, 10873554, 10868056, 10862565, 10857083, 10851610, 10846144, 
   10840687, 10835238, 10829797, 10824365, 10818940, 10813524, 10808116>> 
Cos28 == <<268435456, 268435247, 268434622, 268433579, 268432118, 268430241, 
   268427947, 268425235, 268422106, 268418560, 268414597, 268410216, 268405419, 
   268400204, 268394572, 268388523, 268382057, 268375174, 268367873, 268360156, 
   268352021, 268343470, 268334501, 268325116, 268315313, 268305093, 268294457, 
   268283403, 268271932, 268260045, 268247740, 268235019, 268221881, 268208326, 
   268194354, 268179965, 268165159, 268149937, 268134298, 268118242, 268101770, 
   268084880, 268067575, 268049852, 268031713, 268013157, 267994185, 267974797, 
   267954991, 267934770, 267914132, 267893077, 267871607, 267849720, 267827416, 
   267804697, 267781561, 267758009, 267734041, 267709656, 267684856, 267659640, 
   267634007, 267607959, 267581495, 267554615, 267527319, 267499607, 267471480, 
   267442937, 267413978, 267384604, 267354814, 267324608, 267293987, 267262951, 
   267231499, 267199632, 267167350, 267134653, 267101540, 267068012, 267034069, 
   266999711, 266964938, 266929751, 266894148, 266858131, 266821699, 266784852, 
   266747590, 266709914, 266671824, 266633319, 266594399, 266555065, 266515317, 
   266475155, 266434579, 266393588, 266352184, 266310365, 266268133, 266225487, 
   266182427, 266138953, 266095066, 266050765, 266006051, 265960923, 265915382, 
   265869428, 265823061, 265776280, 265729086, 265681480, 265633460, 265585027, 
   265536182, 265486924, 265437254, 265387171, 265336675, 265285767, 265234447, 
   265182715, 265130570, 265078013, 265025045, 264971664, 264917872, 264863668, 
   264809052, 264754025, 264698586, 264642736, 264586475, 264529802, 264472719, 
   264415224, 264357318, 264299002, 264240274, 264181136, 264121588, 264061629, 
   264001259, 263940479, 263879289, 263817689, 263755679, 263693259, 263630429, 
   263567190, 263503541, 263439482, 263375014, 263310136, 263244849, 263179154, 
   263113049, 263046535, 262979612, 262912281, 262844541, 262776393, 262707836, 
   262638871, 262569497, 262499716, 262429526, 262358929, 262287924, 262216512, 
   262144691, 262072464, 261999829, 261926787, 261853338, 261779482, 261705219, 
   261630549, 261555473, 261479990, 261404101, 261327805, 261251104, 261173996, 
   261096482, 261018563, 260940238, 260861507, 260782371, 260702830, 260622884, 
   260542532, 260461776, 260380614, 260299049, 260217078, 260134703, 260051924, 
   259968741, 259885153, 259801162, 259716767, 259631968, 259546766, 259461160, 
   259375152, 259288740, 259201925, 259114707, 259027086, 258939063, 258850638, 
   258761810, 258672580, 258582948, 258492914, 258402479, 258311641, 258220403, 
   258128763, 258036722, 257944279, 257851436, 257758193, 257664548, 257570503, 
   257476058, 257381213, 257285967, 257190322, 257094277, 256997833, 256900989, 
   256803746, 256706103, 256608062, 256509622, 256410783, 256311546, 256211910, 
   256111876, 256011445, 255910615, 255809387, 255707762, 255605740, 255503320, 
   255400503, 255297290, 255193679, 255089672, 254985268, 254880469, 254775273, 
   254669681, 254563693, 254457309, 254350531, 254243356, 254135787, 254027823, 
   253919464, 253810710, 253701562, 253592019, 253482083, 253371752, 253261028, 
   253149910, 253038399, 252926494, 252814196, 252701505, 252588422, 252474946, 
   252361078, 252246817, 252132165, 252017120, 251901684, 251785856, 251669637, 
   251553027, 251436026, 251318634, 251200852, 251082679, 250964116, 250845163, 
   250725820, 250606087, 250485965, 250365454, 250244553, 250123264, 250001586, 
   249879519, 249757064, 249634221, 249510990, 249387371, 249263364, 249138970, 
   249014189, 248889021, 248763466, 248637524, 248511196, 248384482, 248257382, 
   248129895, 248002024, 247873766, 247745124, 247616096, 247486684, 247356887, 
   247226706, 247096140, 246965190, 246833857, 246702140, 246570039, 246437556, 
   246304689, 246171439, 246037807, 245903793, 245769396, 245634617, 245499457, 
   245363915, 245227991, 245091687, 244955002, 244817936, 244680489, 244542662, 
   244404455, 244265869, 244126902, 243987557, 243847832, 243707728, 243567245, 
   243426384, 243285144, 243143526, 243001531, 242859158, 242716407, 242573279, 
   242429774, 242285892, 242141634, 241997000, 241851989, 241706602, 241560840, 
   241414703, 241268190, 241121302, 240974039, 240826402, 240678391, 240530005, 
   240381246, 240232113, 240082607, 239932728, 239782476, 239631851, 239480854, 
   239329484, 239177743, 239025629, 238873145, 238720289, 238567062, 238413464, 
   238259496, 238105157, 237950449, 237795370, 237639923, 237484105, 237327919, 
   237171364, 237014440, 236857148, 236699487, 236541459, 236383063, 236224300, 
   236065170, 235905672, 235745809, 235585578, 235424982, 235264020, 235102692, 
   234940998, 234778940, 234616517, 234453729, 234290576, 234127060, 233963179, 
   233798935, 233634328, 233469358, 233304024, 233138329, 232972270, 232805850, 
   232639068, 232471924, 232304419, 232136553, 231968326, 231799739, 231630791, 
   231461484, 231291817, 231121790, 230951404, 230780659, 230609555, 230438093, 
   230266273, 230094095, 229921560, 229748667, 229575417, 229401810, 229227847, 
   229053527, 228878851, 228703820, 228528433, 228352691, 228176595, 228000143, 
   227823337, 227646177, 227468664, 227290797, 227112576, 226934003, 226755077, 
   226575798, 226396167, 226216185, 226035851, 225855165, 225674129, 225492742, 
   225311004, 225128916, 224946479, 224763691, 224580555, 224397069, 224213235, 
   224029052, 223844521, 223659642, 223474415, 223288842, 223102921, 222916653, 
   222730039, 222543079, 222355773, 222168121, 221980124, 221791782, 221603095, 
   221414064, 221224689, 221034970, 220844908, 220654502, 220463753, 220272662, 
   220081228, 219889453, 219697335, 219504876, 219312076, 219118935, 218925454, 
   218731632, 218537470, 218342969, 218148128, 217952949, 217757430, 217561574, 
   217365379, 217168846, 216971975, 216774768, 216577224, 216379343, 216181125, 
   215982572, 215783683, 215584459, 215384899, 215185005, 214984777, 214784214, 
   214583317, 214382087, 214180524, 213978628, 213776399, 213573839, 213370946, 
   213167721, 212964166, 212760279, 212556062, 212351514, 212146636, 211941429, 
   211735892, 211530026, 211323831, 211117308, 210910457, 210703278, 210495772, 
   210287938, 210079777, 209871291, 209662477, 209453338, 209243874, 209034084, 
   208823970, 208613531, 208402767, 208191680, 207980269, 207768535, 207556478, 
   207344099, 207131397, 206918373, 206705028, 206491361, 206277374, 206063066, 
   205848438, 205633489, 205418222, 205202635, 204986729, 204770504, 204553961, 
   204337100, 204119922, 203902427, 203684614, 203466485, 203248040, 203029279, 
   202810202, 202590810, 202371104, 202151082, 201930747, 201710098, 201489135, 
   201267859, 201046270, 200824369, 200602156, 200379631, 200156795, 199933647, 
   199710189, 199486420, 199262341, 199037953, 198813255, 198588249, 198362933, 
   198137310, 197911378, 197685139, 197458593, 197231739, 197004579, 196777113, 
   196549342, 196321264, 196092882, 195864195, 195635203, 195405908, 195176308, 
   194946406, 194716200, 194485692, 194254881, 194023769, 193792355, 193560640, 
   193328624, 193096307, 192863691, 192630774, 192397559, 192164044, 191930231, 
   191696119, 191461710, 191227002, 190991998, 190756697, 190521099, 190285206, 
   190049016, 189812531, 189575751, 189338677, 189101308, 188863646, 188625689, 
   188387440, 188148898, 187910063, 187670937, 187431519, 187191809, 186951809, 
   186711518, 186470936, 186230065, 185988905, 185747455, 185505717, 185263691, 
   185021376, 184778774, 184535885, 184292709, 184049247, 183805499, 183561464, 
   183317145, 183072541, 182827652, 182582479, 182337022, 182091282, 181845259, 
   181598953, 181352365, 181105496, 180858344, 180610912, 180363199, 180115206, 
   179866932, 179618379, 179369547, 179120437, 178871048, 178621380, 178371436, 
   178121214, 177870715, 177619940, 177368888, 177117561, 176865959, 176614082, 
   176361930, 176109505, 175856805, 175603832, 175350587, 175097069, 174843278, 
   174589216, 174334883, 174080279, 173825404, 173570259, 173314844, 173059160, 
   172803207, 172546985, 172290495, 172033738, 171776713, 171519421, 171261862, 
   171004038, 170745947, 170487591, 170228971, 169970085, 169710936, 169451522, 
   169191846, 168931906, 168671704, 168411240, 168150514, 167889526, 167628278, 
   167366769, 167105000, 166842972, 166580684, 166318137, 166055332, 165792268, 
   165528947, 165265369, 165001534, 164737442, 164473094, 164208491, 163943633, 
   163678519, 163413152, 163147530, 162881655, 162615527, 162349146, 162082512, 
   161815627, 161548490, 161281102, 161013464, 160745575, 160477437, 160209049, 
   159940412, 159671526, 159402392, 159133011, 158863382, 158593506, 158323384, 
   158053016, 157782402, 157511543, 157240439, 156969091, 156697499, 156425663, 
   156153584, 155881263, 155608699, 155335893, 155062846, 154789558, 154516030, 
   154242261, 153968252, 153694004, 153419518, 153144793, 152869830, 152594629, 
   152319191, 152043516, 151767606, 151491459, 151215077, 150938459, 150661608, 
   150384522, 150107202, 149829649, 149551863, 149273845, 148995595, 148717113, 
   148438400, 148159456, 147880282, 147600879, 147321246, 147041383, 146761293, 
   146480974, 146200428, 145919654, 145638654, 145357427, 145075974, 144794296, 
   144512393, 144230265, 143947913, 143665338, 143382539, 143099517, 142816273, 
   142532807, 142249119, 141965211, 141681081, 141396732, 141112162, 140827374, 
   140542366, 140257140, 139971697, 139686035, 139400157, 139114061, 138827750, 
   138541223, 138254480, 137967523, 137680351, 137392966, 137105366, 136817554, 
   136529529, 136241292, 135952843, 135664183, 135375312, 135086230, 134796939, 
   134507438, 134217728, 133927809, 133637683, 133347348, 133056807, 132766058, 
   132475104, 132183943, 131892577, 131601006, 131309230, 131017250, 130725067, 
   130432681, 130140091, 129847300, 129554307, 129261112, 128967717, 128674121, 
   128380325, 128086329, 127792135, 127497742, 127203150, 126908362, 126613375, 
   126318192, 126022813, 125727238, 125431467, 125135502, 124839342, 124542988, 
   124246440, 123949700, 123652766, 123355641, 123058324, 122760815, 122463116, 
   122165226, 121867147, 121568878, 121270420, 120971774, 120672940, 120373918, 
   120074709, 119775313, 119475732, 119175964, 118876012, 118575875, 118275553, 
   117975047, 117674359, 117373487, 117072433, 116771197, 116469779, 116168181, 
   115866402, 115564443, 115262304, 114959986, 114657489, 114354815, 114051962, 
   113748932, 113445726, 113142343, 112838784, 112535050, 112231141, 111927058, 
   111622801, 111318370, 111013766, 110708989, 110404041, 110098921, 109793630, 
   109488168, 109182536, 108876735, 108570764, 108264624, 107958316, 107651841, 
   107345198, 107038388, 106731412, 106424270, 106116963, 105809490, 105501854, 
   105194053, 104886089, 104577961, 104269672, 103961220, 103652606, 103343832, 
   103034897, 102725802, 102416547, 102107133, 101797560, 101487829, 101177940, 
   100867894, 100557692, 100247333, 99936818, 99626148, 99315323, 99004344, 
   98693210, 98381924, 98070484, 97758893, 97447149, 97135254, 96823207, 
   96511011, 96198664, 95886168, 95573523, 95260729, 94947787, 94634698, 
   94321461, 94008078, 93694549, 93380874, 93067054, 92753090, 92438981, 
   92124729, 91810333, 91495795, 91181114, 90866292, 90551329, 90236225, 
   89920981, 89605596, 89290073, 88974411, 88658611, 88342672, 88026597, 
   87710385, 87394036, 87077552, 86760932, 86444177, 86127288, 85810265, 
   85493109, 85175820, 84858399, 84540845, 84223161, 83905345, 83587399, 
   83269323, 82951118, 82632784, 82314321, 81995730, 81677012, 81358167, 
   81039196, 80720098, 80400876, 80081528, 79762056, 79442459, 79122740, 
   78802897, 78482932, 78162845, 77842636, 77522307, 77201857, 76881287, 
   76560597, 76239789, 75918862, 75597817, 75276654, 74955375, 74633979, 
   74312467, 73990839, 73669097, 73347240, 73025269, 72703185, 72380987, 
   72058677, 71736255, 71413722, 71091078, 70768323, 70445458, 70122484, 
   69799400, 69476208, 69152909, 68829501, 68505987, 68182366, 67858640, 
   67534808, 67210871, 66886829, 66562684, 66238435, 65914083, 65589628, 
   65265072, 64940414, 64615656, 64290797, 63965838, 63640779, 63315622, 
   62990366, 62665013, 62339562, 62014014, 61688370, 61362629, 61036794, 
   60710864, 60384839, 60058720, 59732508, 59406204, 59079807, 58753318, 
   58426737, 58100066, 57773305, 57446454, 57119514, 56792485, 56465367, 
   56138162, 55810870, 55483490, 55156025, 54828474, 54500838, 54173117, 
   53845311, 53517422, 53189450, 52861396, 52533259, 52205040, 51876740, 
   51548360, 51219900, 50891360, 50562741, 50234043, 49905267, 49576414, 
   49247483, 48918476, 48589393, 48260235, 47931001, 47601694, 47272312, 
   46942856, 46613328, 46283727, 45954054, 45624310, 45294495, 44964609, 
   44634654, 44304629, 43974536, 43644374, 43314144, 42983847, 42653483, 
   42323053, 41992557, 41661996, 41331370, 41000680, 40669926, 40339109, 
   40008229, 39677287, 39346283, 39015218, 38684093, 38352907, 38021662, 
   37690358, 37358995, 37027574, 36696095, 36364560, 36032968, 35701320, 
   35369616, 35037858, 34706045, 34374178, 34042258, 33710285, 33378259, 
   33046182, 32714053, 32381873, 32049643, 31717363, 31385034, 31052656, 
   30720230, 30387756, 30055235, 29722667, 29390053, 29057394, 28724689, 
   28391939, 28059146, 27726308, 27393428, 27060505, 26727540, 26394534, 
   26061486, 25728398, 25395270, 25062103, 24728896, 24395652, 24062369, 
   23729049, 23395692, 23062298, 22728869, 22395404, 22061905, 21728371, 
   21394804, 21061203, 20727570, 20393904, 20060207, 19726478, 19392719, 
   19058930, 18725111, 18391263, 18057386, 17723482, 17389549, 17055590, 
   16721604, 16387593, 16053555, 15719493, 15385407, 15051296, 14717162, 
   14383005, 14048826, 13714625, 13380403, 13046160, 12711897, 12377614, 
   12043311, 11708990, 11374651, 11040294, 10705920, 10371529, 10037122, 
   9702700, 9368262, 9033810, 8699344, 8364864, 8030372, 7695867, 7361350, 
   7026821, 6692282, 6357732, 6023172, 5688603, 5354025, 5019439, 4684845, 
   4350243, 4015635, 3681021, 3346401, 3011776, 2677146, 2342512, 2007874, 
   1673233, 1338589, 1003944, 669297, 334649, 0, -334649, -669297, -1003944, 
   -1338589, -1673233, -2007874, -2342512, -2677146, -3011776, -3346401, 
   -3681021, -4015635, -4350243, -4684845, -5019439, -5354025, -5688603, 
   -6023172, -6357732, -6692282, -7026821, -7361350, -7695867, -8030372, 
   -8364864, -8699344, -9033810, -9368262, -9702700, -10037122, -10371529, 
   -10705920, -11040294, -11374651, -11708990, -12043311, -12377614, -12711897, 
   -13046160, -13380403, -13714625, -14048826, -14383005, -14717162, -15051296, 
   -15385407, -15719493, -16053555, -16387593, -16721604, -17055590, -17389549, 
   -17723482, -18057386, -18391263, -18725111, -19058930, -19392719, -19726478, 
   -20060207, -20393904, -20727570, -21061203, -21394804, -21728371, -22061905, 
   -22395404, -22728869, -23062298, -23395692, -23729049, -24062369, -24395652, 
   -24728896, -25062103, -25395270, -25728398, -26061486, -26394534, -26727540, 
   -27060505, -27393428, -27726308, -28059146, -28391939, -28724689, -29057394, 
   -29390053, -29722667, -30055235, -30387756, -30720230, -31052656, -31385034, 
   -31717363, -32049643, -32381873, -32714053, -33046182, -33378259, -33710285, 
   -34042258, -34374178, -34706045, -35037858, -35369616, -35701320, -36032968, 
   -36364560, -36696095, -37027574, -37358995, -37690358, -38021662, -38352907, 
   -38684093, -39015218, -39346283, -39677287, -40008229, -40339109, -40669926, 
   -41000680, -41331370, -41661996, -41992557, -42323053, -42653483, -42983847, 
   -43314144, -43644374, -43974536, -44304629, -44634654, -44964609, -45294495, 
   -45624310, -45954054, -46283727, -46613328, -46942856, -47272312, -47601694, 
   -47931001, -48260235, -48589393, -48918476, -49247483, -49576414, -49905267, 
   -50234043, -50562741, -50891360, -51219900, -51548360, -51876740, -52205040, 
   -52533259, -52861396, -53189450, -53517422, -53845311, -54173117, -54500838, 
   -54828474, -55156025, -55483490, -55810870, -56138162, -56465367, -56792485, 
   -57119514, -57446454, -57773305, -58100066, -58426737, -58753318, -59079807, 
   -59406204, -59732508, -60058720, -60384839, -60710864, -61036794, -61362629, 
   -61688370, -62014014, -62339562, -62665013, -62990366, -63315622, -63640779, 
   -63965838, -64290797, -64615656, -64940414, -65265072, -65589628, -65914083, 
   -66238435, -66562684, -66886829, -67210871, -67534808, -67858640, -68182366, 
   -68505987, -68829501, -69152909, -69476208, -69799400, -70122484, -70445458, 
   -70768323, -71091078, -71413722, -71736255, -72058677, -72380987, -72703185, 
   -73025269, -73347240, -73669097, -73990839, -74312467, -74633979, -74955375, 
   -75276654, -75597817, -75918862, -76239789, -76560597, -76881287, -77201857, 
   -77522307, -77842636, -78162845, -78482932, -78802897, -79122740, -79442459, 
   -79762056, -80081528, -80400876, -80720098, -81039196, -81358167, -81677012, 
   -81995730, -82314321, -82632784, -82951118, -83269323, -83587399, -83905345, 
   -84223161, -84540845, -84858399, -85175820, -85493109, -85810265, -86127288, 
   -86444177, -86760932, -87077552, -87394036, -87710385, -88026597, -88342672, 
   -88658611, -88974411, -89290073, -89605596, -89920981, -90236225, -90551329, 
   -90866292, -91181114, -91495795, -91810333, -92124729, -92438981, -92753090, 
   -93067054, -93380874, -93694549, -94008078, -94321461, -94634698, -94947787, 
   -95260729, -95573523, -95886168, -96198664, -96511011, -96823207, -97135254, 
   -97447149, -97758893, -98070484, -98381924, -98693210, -99004344, -99315323, 
   -99626148, -99936818, -100247333, -100557692, -100867894, -101177940, 
   -101487829, -101797560, -102107133, -102416547, -102725802, -103034897, 
   -103343832, -103652606, -103961220, -104269672, -104577961, -104886089, 
   -105194053, -105501854, -105809490, -106116963, -106424270, -106731412, 
   -107038388, -107345198, -107651841, -107958316, -108264624, -108570764, 
   -108876735, -109182536, -109488168, -109793630, -110098921, -110404041, 
   -110708989, -111013766, -111318370, -111622801, -111927058, -112231141, 
   -112535050, -112838784, -113142343, -113445726, -113748932, -114051962, 
   -114354815, -114657489, -114959986, -115262304, -115564443, -115866402, 
   -116168181, -116469779, -116771197, -117072433, -117373487, -117674359, 
   -117975047, -118275553, -118575875, -118876012, -119175964, -119475732, 
   -119775313, -120074709, -120373918, -120672940, -120971774, -121270420, 
   -121568878, -121867147, -122165226, -122463116, -122760815, -123058324, 
   -123355641, -123652766, -123949700, -124246440, -124542988, -124839342, 
   -125135502, -125431467, -125727238, -126022813, -126318192, -126613375, 
   -126908362, -127203150, -127497742, -127792135, -128086329, -128380325, 
   -128674121, -128967717, -129261112, -129554307, -129847300, -130140091, 
   -130432681, -130725067, -131017250, -131309230, -131601006, -131892577, 
   -132183943, -132475104, -132766058, -133056807, -133347348, -133637683, 
   -133927809, -134217728, -134507438, -134796939, -135086230, -135375312, 
   -135664183, -135952843, -136241292, -136529529, -136817554, -137105366, 
   -137392966, -137680351, -137967523, -138254480, -138541223, -138827750, 
   -139114061, -139400157, -139686035, -139971697, -140257140, -140542366, 
   -140827374, -141112162, -141396732, -141681081, -141965211, -142249119, 
   -142532807, -142816273, -143099517, -143382539, -143665338, -143947913, 
   -144230265, -144512393, -144794296, -145075974, -145357427, -145638654, 
   -145919654, -146200428, -146480974, -146761293, -147041383, -147321246, 
   -147600879, -147880282, -148159456, -148438400, -148717113, -148995595, 
   -149273845, -149551863, -149829649, -150107202, -150384522, -150661608, 
   -150938459, -151215077, -151491459, -151767606, -152043516, -152319191, 
   -152594629, -152869830, -153144793, -153419518, -153694004, -153968252, 
   -154242261, -154516030, -154789558, -155062846, -155335893, -155608699, 
   -155881263, -156153584, -156425663, -156697499, -156969091, -157240439, 
   -157511543, -157782402, -158053016, -158323384, -158593506, -158863382, 
   -159133011, -159402392, -159671526, -159940412, -160209049, -160477437, 
   -160745575, -161013464, -161281102, -161548490, -161815627, -162082512, 
   -162349146, -162615527, -162881655, -163147530, -163413152, -163678519, 
   -163943633, -164208491, -164473094, -164737442, -165001534, -165265369, 
   -165528947, -165792268, -166055332, -166318137, -166580684, -166842972, 
   -167105000, -167366769, -167628278, -167889526, -168150514, -168411240, 
   -168671704, -168931906, -169191846, -169451522, -169710936, -169970085, 
   -170228971, -170487591, -170745947, -171004038, -171261862, -171519421, 
   -171776713, -172033738, -172290495, -172546985, -172803207, -173059160, 
   -173314844, -173570259, -173825404, -174080279, -174334883, -174589216, 
   -174843278, -175097069, -175350587, -175603832, -175856805, -176109505, 
   -176361930, -176614082, -176865959, -177117561, -177368888, -177619940, 
   -177870715, -178121214, -178371436, -178621380, -178871048, -179120437, 
   -179369547, -179618379, -179866932, -180115206, -180363199, -180610912, 
   -180858344, -181105496, -181352365, -181598953, -181845259, -182091282, 
   -182337022, -182582479, -182827652, -183072541, -183317145, -183561464, 
   -183805499, -184049247, -184292709, -184535885, -184778774, -185021376, 
   -185263691, -185505717, -185747455, -185988905, -186230065, -186470936, 
   -186711518, -186951809, -187191809, -187431519, -187670937, -187910063, 
   -188148898, -188387440, -188625689, -188863646, -189101308, -189338677, 
   -189575751, -189812531, -190049016, -190285206, -190521099, -190756697, 
   -190991998, -191227002, -191461710, -191696119, -191930231, -192164044, 
   -192397559, -192630774, -192863691, -193096307, -193328624, -193560640, 
   -193792355, -194023769, -194254881, -194485692, -194716200, -194946406, 
   -195176308, -195405908, -195635203, -195864195, -196092882, -196321264, 
   -196549342, -196777113, -197004579, -197231739, -197458593, -197685139, 
   -197911378, -198137310, -198362933, -198588249, -198813255, -199037953, 
   -199262341, -199486420, -199710189, -199933647, -200156795, -200379631, 
   -200602156, -200824369, -201046270, -201267859, -201489135, -201710098, 
   -201930747, -202151082, -202371104, -202590810, -202810202, -203029279, 
   -203248040, -203466485, -203684614, -203902427, -204119922, -204337100, 
   -204553961, -204770504, -204986729, -205202635, -205418222, -205633489, 
   -205848438, -206063066, -206277374, -206491361, -206705028, -206918373, 
   -207131397, -207344099, -207556478, -207768535, -207980269, -208191680, 
   -208402767, -208613531, -208823970, -209034084, -209243874, -209453338, 
   -209662477, -209871291, -210079777, -210287938, -210495772, -210703278, 
   -210910457, -211117308, -211323831, -211530026, -211735892, -211941429, 
   -212146636, -212351514, -212556062, -212760279, -212964166, -213167721, 
   -213370946, -213573839, -213776399, -213978628, -214180524, -214382087, 
   -214583317, -214784214, -214984777, -215185005, -215384899, -215584459, 
   -215783683, -215982572, -216181125, -216379343, -216577224, -216774768, 
   -216971975, -217168846, -217365379, -217561574, -217757430, -217952949, 
   -218148128, -218342969, -218537470, -218731632, -218925454, -219118935, 
   -219312076, -219504876, -219697335, -219889453, -220081228, -220272662, 
   -220463753, -220654502, -220844908, -221034970, -221224689, -221414064, 
   -221603095, -221791782, -221980124, -222168121, -222355773, -222543079, 
   -222730039, -222916653, -223102921, -223288842, -223474415, -223659642, 
   -223844521, -224029052, -224213235, -224397069, -224580555, -224763691, 
   -224946479, -225128916, -225311004, -225492742, -225674129, -225855165, 
   -226035851, -226216185, -226396167, -226575798, -226755077, -226934003, 
   -227112576, -227290797, -227468664, -227646177, -227823337, -228000143, 
   -228176595, -228352691, -228528433, -228703820, -228878851, -229053527, 
   -229227847, -229401810, -229575417, -229748667, -229921560, -230094095, 
   -230266273, -230438093, -230609555, -230780659, -230951404, -231121790, 
   -231291817, -231461484, -231630791, -231799739, -231968326, -232136553, 
   -232304419, -232471924, -232639068, -232805850, -232972270, -233138329, 
   -233304024, -233469358, -233634328, -233798935, -233963179, -234127060, 
   -234290576, -234453729, -234616517, -234778940, -234940998, -235102692, 
   -235264020, -235424982, -235585578, -235745809, -235905672, -236065170, 
   -236224300, -236383063, -236541459, -236699487, -236857148, -237014440, 
   -237171364, -237327919, -237484105, -237639923, -237795370, -237950449, 
   -238105157, -238259496, -238413464, -238567062, -238720289, -238873145, 
   -239025629, -239177743, -239329484, -239480854, -239631851, -239782476, 
   -239932728, -240082607, -240232113, -240381246, -240530005, -240678391, 
   -240826402, -240974039, -241121302, -241268190, -241414703, -241560840, 
   -241706602, -241851989, -241997000, -242141634, -242285892, -242429774, 
   -242573279, -242716407, -242859158, -243001531, -243143526, -243285144, 
   -243426384, -243567245, -243707728, -243847832, -243987557, -244126902, 
   -244265869, -244404455, -244542662, -244680489, -244817936, -244955002, 
   -245091687, -245227991, -245363915, -245499457, -245634617, -245769396, 
   -245903793, -246037807, -246171439, -246304689, -246437556, -246570039, 
   -246702140, -246833857, -246965190, -247096140, -247226706, -247356887, 
   -247486684, -247616096, -247745124, -247873766, -248002024, -248129895, 
   -248257382, -248384482, -248511196, -248637524, -248763466, -248889021, 
   -249014189, -249138970, -249263364, -249387371, -249510990, -249634221, 
   -249757064, -249879519, -250001586, -250123264, -250244553, -250365454, 
   -250485965, -250606087, -250725820, -250845163, -250964116, -251082679, 
   -251200852, -251318634, -251436026, -251553027, -251669637, -251785856, 
   -251901684, -252017120, -252132165, -252246817, -252361078, -252474946, 
   -252588422, -252701505, -252814196, -252926494, -253038399, -253149910, 
   -253261028, -253371752, -253482083, -253592019, -253701562, -253810710, 
   -253919464, -254027823, -254135787, -254243356, -254350531, -254457309, 
   -254563693, -254669681, -254775273, -254880469, -254985268, -255089672, 
   -255193679, -255297290, -255400503, -255503320, -255605740, -255707762, 
   -255809387, -255910615, -256011445, -256111876, -256211910, -256311546, 
   -256410783, -256509622, -256608062, -256706103, -256803746, -256900989, 
   -256997833, -257094277, -257190322, -257285967, -257381213, -257476058, 
   -257570503, -257664548, -257758193, -257851436, -257944279, -258036722, 
   -258128763, -258220403, -258311641, -258402479, -258492914, -258582948, 
   -258672580, -258761810, -258850638, -258939063, -259027086, -259114707, 
   -259201925, -259288740, -259375152, -259461160, -259546766, -259631968, 
   -259716767, -259801162, -259885153, -259968741, -260051924, -260134703, 
   -260217078, -260299049, -260380614, -260461776, -260542532, -260622884, 
   -260702830, -260782371, -260861507, -260940238, -261018563, -261096482, 
   -261173996, -261251104, -261327805, -261404101, -261479990, -261555473, 
   -261630549, -261705219, -261779482, -261853338, -261926787, -261999829, 
   -262072464, -262144691, -262216512, -262287924, -262358929, -262429526, 
   -262499716, -262569497, -262638871, -262707836, -262776393, -262844541, 
   -262912281, -262979612, -263046535, -263113049, -263179154, -263244849, 
   -263310136, -263375014, -263439482, -263503541, -263567190, -263630429, 
   -263693259, -263755679, -263817689, -263879289, -263940479, -264001259, 
   -264061629, -264121588, -264181136, -264240274, -264299002, -264357318, 
   -264415224, -264472719, -264529802, -264586475, -264642736, -264698586, 
   -264754025, -264809052, -264863668, -264917872, -264971664, -265025045, 
   -265078013, -265130570, -265182715, -265234447, -265285767, -265336675, 
   -265387171, -265437254, -265486924, -265536182, -265585027, -265633460, 
   -265681480, -265729086, -265776280, -265823061, -265869428, -265915382, 
   -265960923, -266006051, -266050765, -266095066, -266138953, -266182427, 
   -266225487, -266268133, -266310365, -266352184, -266393588, -266434579, 
   -266475155, -266515317, -266555065, -266594399, -266633319, -266671824, 
   -266709914, -266747590, -266784852, -266821699, -266858131, -266894148, 
   -266929751, -266964938, -266999711, -267034069, -267068012, -267101540, 
   -267134653, -267167350, -267199632, -267231499, -267262951, -267293987, 
   -267324608, -267354814, -267384604, -267413978, -267442937, -267471480, 
   -267499607, -267527319, -267554615, -267581495, -267607959, -267634007, 
   -267659640, -267684856, -267709656, -267734041, -267758009, -267781561, 
   -267804697, -267827416, -267849720, -267871607, -267893077, -267914132, 
   -267934770, -267954991, -267974797, -267994185, -268013157, -268031713, 
   -268049852, -268067575, -268084880, -268101770, -268118242, -268134298, 
   -268149937, -268165159, -268179965, -268194354, -268208326, -268221881, 
   -268235019, -268247740, -268260045, -268271932, -268283403, -268294457, 
   -268305093, -268315313, -268325116, -268334501, -268343470, -268352021, 
   -268360156, -268367873, -268375174, -268382057, -268388523, -268394572, 
   -268400204, -268405419, -268410216, -268414597, -268418560, -268422106, 
   -268425235, -268427947, -268430241, -268432118, -268433579, -268434622, 
   -268435247, -268435456, -268435247, -268434622, -268433579, -268432118, 
   -268430241, -268427947, -268425235, -268422106, -268418560, -268414597, 
   -268410216, -268405419, -268400204, -268394572, -268388523, -268382057, 
   -268375174, -268367873, -268360156, -268352021, -268343470, -268334501, 
   -268325116, -268315313, -268305093, -268294457, -268283403, -268271932, 
   -268260045, -268247740, -268235019, -268221881, -268208326, -268194354, 
   -268179965, -268165159, -268149937, -268134298, -268118242, -268101770, 
   -268084880, -268067575, -268049852, -268031713, -268013157, -267994185, 
   -267974797, -267954991, -267934770, -267914132, -267893077, -267871607, 
   -267849720, -267827416, -267804697, -267781561, -267758009, -267734041, 
   -267709656, -267684856, -267659640, -267634007, -267607959, -267581495, 
   -267554615, -267527319, -267499607, -267471480, -267442937, -267413978, 
   -267384604, -267354814, -267324608, -267293987, -267262951, -267231499, 
   -267199632, -267167350, -267134653, -267101540, -267068012, -267034069, 
   -266999711, -266964938, -266929751, -266894148, -266858131, -266821699, 
   -266784852, -266747590, -266709914, -266671824, -266633319, -266594399, 
   -266555065, -266515317, -266475155, -266434579, -266393588, -266352184, 
   -266310365, -266268133, -266225487, -266182427, -266138953, -266095066, 
   -266050765, -266006051, -265960923, -265915382, -265869428, -265823061, 
   -265776280, -265729086, -265681480, -265633460, -265585027, -265536182, 
   -265486924, -265437254, -265387171, -265336675, -265285767, -265234447, 
   -265182715, -265130570, -265078013, -265025045, -264971664, -264917872, 
   -264863668, -264809052, -264754025, -264698586, -264642736, -264586475, 
   -264529802, -264472719, -264415224, -264357318, -264299002, -264240274, 
   -264181136, -264121588, -264061629, -264001259, -263940479, -263879289, 
   -263817689, -263755679, -263693259, -263630429, -263567190, -263503541, 
   -263439482, -263375014, -263310136, -263244849, -263179154, -263113049, 
   -263046535, -262979612, -262912281, -262844541, -262776393, -262707836, 
   -262638871, -262569497, -262499716, -262429526, -262358929, -262287924, 
   -262216512, -262144691, -262072464, -261999829, -261926787, -261853338, 
   -261779482, -261705219, -261630549, -261555473, -261479990, -261404101, 
   -261327805, -261251104, -261173996, -261096482, -261018563, -260940238, 
   -260861507, -260782371, -260702830, -260622884, -260542532, -260461776, 
   -260380614, -260299049, -260217078, -260134703, -260051924, -259968741, 
   -259885153, -259801162, -259716767, -259631968, -259546766, -259461160, 
   -259375152, -259288740, -259201925, -259114707, -259027086, -258939063, 
   -258850638, -258761810, -258672580, -258582948, -258492914, -258402479, 
   -258311641, -258220403, -258128763, -258036722, -257944279, -257851436, 
   -257758193, -257664548, -257570503, -257476058, -257381213, -257285967, 
   -257190322, -257094277, -256997833, -256900989, -256803746, -256706103, 
   -256608062, -256509622, -256410783, -256311546, -256211910, -256111876, 
   -256011445, -255910615, -255809387, -255707762, -255605740, -255503320, 
   -255400503, -255297290, -255193679, -255089672, -254985268, -254880469, 
   -254775273, -254669681, -254563693, -254457309, -254350531, -254243356, 
   -254135787, -254027823, -253919464, -253810710, -253701562, -253592019, 
   -253482083, -253371752, -253261028, -253149910, -253038399, -252926494, 
   -252814196, -252701505, -252588422, -252474946, -252361078, -252246817, 
   -252132165, -252017120, -251901684, -251785856, -251669637, -251553027, 
   -251436026, -251318634, -251200852, -251082679, -250964116, -250845163, 
   -250725820, -250606087, -250485965, -250365454, -250244553, -250123264, 
   -250001586, -249879519, -249757064, -249634221, -249510990, -249387371, 
   -249263364, -249138970, -249014189, -248889021, -248763466, -248637524, 
   -248511196, -248384482, -248257382, -248129895, -248002024, -247873766, 
   -247745124, -247616096, -247486684, -247356887, -247226706, -247096140, 
   -246965190, -246833857, -246702140, -246570039, -246437556, -246304689, 
   -246171439, -246037807, -245903793, -245769396, -245634617, -245499457, 
   -245363915, -245227991, -245091687, -244955002, -244817936, -244680489, 
   -244542662, -244404455, -244265869, -244126902, -243987557, -243847832, 
   -243707728, -243567245, -243426384, -243285144, -243143526, -243001531, 
   -242859158, -242716407, -242573279, -242429774, -242285892, -242141634, 
   -241997000, -241851989, -241706602, -241560840, -241414703, -241268190, 
   -241121302, -240974039, -240826402, -240678391, -240530005, -240381246, 
   -240232113, -240082607, -239932728, -239782476, -239631851, -239480854, 
   -239329484, -239177743, -239025629, -238873145, -238720289, -238567062, 
   -238413464, -238259496, -238105157, -237950449, -237795370, -237639923, 
   -237484105, -237327919, -237171364, -237014440, -236857148, -236699487, 
   -236541459, -236383063, -236224300, -236065170, -235905672, -235745809, 
   -235585578, -235424982, -235264020, -235102692, -234940998, -234778940, 
   -234616517, -234453729, -234290576, -234127060, -233963179, -233798935, 
   -233634328, -233469358, -233304024, -233138329, -232972270, -232805850, 
   -232639068, -232471924, -232304419, -232136553, -231968326, -231799739, 
   -231630791, -231461484, -231291817, -231121790, -230951404, -230780659, 
   -230609555, -230438093, -230266273, -230094095, -229921560, -229748667, 
   -229575417, -229401810, -229227847, -229053527, -228878851, -228703820, 
   -228528433, -228352691, -228176595, -228000143, -227823337, -227646177, 
   -227468664, -227290797, -227112576, -226934003, -226755077, -226575798, 
   -226396167, -226216185, -226035851, -225855165, -225674129, -225492742, 
   -225311004, -225128916, -224946479, -224763691, -224580555, -224397069, 
   -224213235, -224029052, -223844521, -223659642, -223474415, -223288842, 
   -223102921, -222916653, -222730039, -222543079, -222355773, -222168121, 
   -221980124, -221791782, -221603095, -221414064, -221224689, -221034970, 
   -220844908, -220654502, -220463753, -220272662, -220081228, -219889453, 
   -219697335, -219504876, -219312076, -219118935, -218925454, -218731632, 
   -218537470, -218342969, -218148128, -217952949, -217757430, -217561574, 
   -217365379, -217168846, -216971975, -216774768, -216577224, -216379343, 
   -216181125, -215982572, -215783683, -215584459, -215384899, -215185005, 
   -214984777, -214784214, -214583317, -214382087, -214180524, -213978628, 
   -213776399, -213573839, -213370946, -213167721, -212964166, -212760279, 
   -212556062, -212351514, -212146636, -211941429, -211735892, -211530026, 
   -211323831, -211117308, -210910457, -210703278, -210495772, -210287938, 
   -210079777, -209871291, -209662477, -209453338, -209243874, -209034084, 
   -208823970, -208613531, -208402767, -208191680, -207980269, -207768535, 
   -207556478, -207344099, -207131397, -206918373, -206705028, -206491361, 
   -206277374, -206063066, -205848438, -205633489, -205418222, -205202635, 
   -204986729, -204770504, -204553961, -204337100, -204119922, -203902427, 
   -203684614, -203466485, -203248040, -203029279, -202810202, -202590810, 
   -202371104, -202151082, -201930747, -201710098, -201489135, -201267859, 
   -201046270, -200824369, -200602156, -200379631, -200156795, -199933647, 
   -199710189, -199486420, -199262341, -199037953, -198813255, -198588249, 
   -198362933, -198137310, -197911378, -197685139, -197458593, -197231739, 
   -197004579, -196777113, -196549342, -196321264, -196092882, -195864195, 
   -195635203, -195405908, -195176308, -194946406, -194716200, -194485692, 
   -194254881, -194023769, -193792355, -193560640, -193328624, -193096307, 
   -192863691, -192630774, -192397559, -192164044, -191930231, -191696119, 
   -191461710, -191227002, -190991998, -190756697, -190521099, -190285206, 
   -190049016, -189812531, -189575751, -189338677, -189101308, -188863646, 
   -188625689, -188387440, -188148898, -187910063, -187670937, -187431519, 
   -187191809, -186951809, -186711518, -186470936, -186230065, -185988905, 
   -185747455, -185505717, -185263691, -185021376, -184778774, -184535885, 
   -184292709, -184049247, -183805499, -183561464, -183317145, -183072541, 
   -182827652, -182582479, -182337022, -182091282, -181845259, -181598953, 
   -181352365, -181105496, -180858344, -180610912, -180363199, -180115206, 
   -179866932, -179618379, -179369547, -179120437, -178871048, -178621380, 
   -178371436, -178121214, -177870715, -177619940, -177368888, -177117561, 
   -176865959, -176614082, -176361930, -176109505, -175856805, -175603832, 
   -175350587, -175097069, -174843278, -174589216, -174334883, -174080279, 
   -173825404, -173570259, -173314844, -173059160, -172803207, -172546985, 
   -172290495, -172033738, -171776713, -171519421, -171261862, -171004038, 
   -170745947, -170487591, -170228971, -169970085, -169710936, -169451522, 
   -169191846, -168931906, -168671704, -168411240, -168150514, -167889526, 
   -167628278, -167366769, -167105000, -166842972, -166580684, -166318137, 
   -166055332, -165792268, -165528947, -165265369, -165001534, -164737442, 
   -164473094, -164208491, -163943633, -163678519, -163413152, -163147530, 
   -162881655, -162615527, -162349146, -162082512, -161815627, -161548490, 
   -161281102, -161013464, -160745575, -160477437, -160209049, -159940412, 
   -159671526, -159402392, -159133011, -158863382, -158593506, -158323384, 
   -158053016, -157782402, -157511543, -157240439, -156969091, -156697499, 
   -156425663, -156153584, -155881263, -155608699, -155335893, -155062846, 
   -154789558, -154516030, -154242261, -153968252, -153694004, -153419518, 
   -153144793, -152869830, -152594629, -152319191, -152043516, -151767606, 
   -151491459, -151215077, -150938459, -150661608, -150384522, -150107202, 
   -149829649, -149551863, -149273845, -148995595, -148717113, -148438400, 
   -148159456, -147880282, -147600879, -147321246, -147041383, -146761293, 
   -146480974, -146200428, -145919654, -145638654, -145357427, -145075974, 
   -144794296, -144512393, -144230265, -143947913, -143665338, -143382539, 
   -143099517, -142816273, -142532807, -142249119, -141965211, -141681081, 
   -141396732, -141112162, -140827374, -140542366, -140257140, -139971697, 
   -139686035, -139400157, -139114061, -138827750, -138541223, -138254480, 
   -137967523, -137680351, -137392966, -137105366, -136817554, -136529529, 
   -136241292, -135952843, -135664183, -135375312, -135086230, -134796939, 
   -134507438, -134217728, -133927809, -133637683, -133347348, -133056807, 
   -132766058, -132475104, -132183943, -131892577, -131601006, -131309230, 
   -131017250, -130725067, -130432681, -130140091, -129847300, -129554307, 
   -129261112, -128967717, -128674121, -128380325, -128086329, -127792135, 
   -127497742, -127203150, -126908362, -126613375, -126318192, -126022813, 
   -125727238, -125431467, -125135502, -124839342, -124542988, -124246440, 
   -123949700, -123652766, -123355641, -123058324, -122760815, -122463116, 
   -122165226, -121867147, -121568878, -121270420, -120971774, -120672940, 
   -120373918, -120074709, -119775313, -119475732, -119175964, -118876012, 
   -118575875, -118275553, -117975047, -117674359, -117373487, -117072433, 
   -116771197, -116469779, -116168181, -115866402, -115564443, -115262304, 
   -114959986, -114657489, -114354815, -114051962, -113748932, -113445726, 
   -113142343, -112838784, -112535050, -112231141, -111927058, -111622801, 
   -111318370, -111013766, -110708989, -110404041, -110098921, -109793630, 
   -109488168, -109182536, -108876735, -108570764, -108264624, -107958316, 
   -107651841, -107345198, -107038388, -106731412, -106424270, -106116963, 
   -105809490, -105501854, -105194053, -104886089, -104577961, -104269672, 
   -103961220, -103652606, -103343832, -103034897, -102725802, -102416547, 
   -102107133, -101797560, -101487829, -101177940, -100867894, -100557692, 
   -100247333, -99936818, -99626148, -99315323, -99004344, -98693210, 
   -98381924, -98070484, -97758893, -97447149, -97135254, -96823207, -96511011, 
   -96198664, -95886168, -95573523, -95260729, -94947787, -94634698, -94321461, 
   -94008078, -93694549, -93380874, -93067054, -92753090, -92438981, -92124729, 
   -91810333, -91495795, -91181114, -90866292, -90551329, -90236225, -89920981, 
   -89605596, -89290073, -88974411, -88658611, -88342672, -88026597, -87710385, 
   -87394036, -87077552, -86760932, -86444177, -86127288, -85810265, -85493109, 
   -85175820, -84858399, -84540845, -84223161, -83905345, -83587399, -83269323, 
   -82951118, -82632784, -82314321, -81995730, -81677012, -81358167, -81039196, 
   -80720098, -80400876, -80081528, -79762056, -79442459, -79122740, -78802897, 
   -78482932, -78162845, -77842636, -77522307, -77201857, -76881287, -76560597, 
   -76239789, -75918862, -75597817, -75276654, -74955375, -74633979, -74312467, 
   -73990839, -73669097, -73347240, -73025269, -72703185, -72380987, -72058677, 
   -71736255, -71413722, -71091078, -70768323, -70445458, -70122484, -69799400, 
   -69476208, -69152909, -68829501, -68505987, -68182366, -67858640, -67534808, 
   -67210871, -66886829, -66562684, -66238435, -65914083, -65589628, -65265072, 
   -64940414, -64615656, -64290797, -63965838, -63640779, -63315622, -62990366, 
   -62665013, -62339562, -62014014, -61688370, -61362629, -61036794, -60710864, 
   -60384839, -60058720, -59732508, -59406204, -59079807, -58753318, -58426737, 
   -58100066, -57773305, -57446454, -57119514, -56792485, -56465367, -56138162, 
   -55810870, -55483490, -55156025, -54828474, -54500838, -54173117, -53845311, 
   -53517422, -53189450, -52861396, -52533259, -52205040, -51876740, -51548360, 
   -51219900, -50891360, -50562741, -50234043, -49905267, -49576414, -49247483, 
   -48918476, -48589393, -48260235, -47931001, -47601694, -47272312, -46942856, 
   -46613328, -46283727, -45954054, -45624310, -45294495, -44964609, -44634654, 
   -44304629, -43974536, -43644374, -43314144, -42983847, -42653483, -42323053, 
   -41992557, -41661996, -41331370, -41000680, -40669926, -40339109, -40008229, 
   -39677287, -39346283, -39015218, -38684093, -38352907, -38021662, -37690358, 
   -37358995, -37027574, -36696095, -36364560, -36032968, -35701320, -35369616, 
   -35037858, -34706045, -34374178, -34042258, -33710285, -33378259, -33046182, 
   -32714053, -32381873, -32049643, -31717363, -31385034, -31052656, -30720230, 
   -30387756, -30055235, -29722667, -29390053, -29057394, -28724689, -28391939, 
   -28059146, -27726308, -27393428, -27060505, -26727540, -26394534, -26061486, 
   -25728398, -25395270, -25062103, -24728896, -24395652, -24062369, -23729049, 
   -23395692, -23062298, -22728869, -22395404, -22061905, -21728371, -21394804, 
   -21061203, -20727570, -20393904, -20060207, -19726478, -19392719, -19058930, 
   -18725111, -18391263, -18057386, -17723482, -17389549, -17055590, -16721604, 
   -16387593, -16053555, -15719493, -15385407, -15051296, -14717162, -14383005, 
   -14048826, -13714625, -13380403, -13046160, -12711897, -12377614, -12043311, 
   -11708990, -11374651, -11040294, -10705920, -10371529, -10037122, -9702700, 
   -9368262, -9033810, -8699344, -8364864, -8030372, -7695867, -7361350, 
   -7026821, -6692282, -6357732, -6023172, -5688603, -5354025, -5019439, 
   -4684845, -4350243, -4015635, -3681021, -3346401, -3011776, -2677146, 
   -2342512, -2007874, -1673233, -1338589, -1003944, -669297, -334649, 0, 
   334649, 669297, 1003944, 1338589, 1673233, 2007874, 2342512, 2677146, 
   3011776, 3346401, 3681021, 4015635, 4350243, 4684845, 5019439, 5354025, 
   5688603, 6023172, 6357732, 6692282, 7026821, 7361350, 7695867, 8030372, 
   8364864, 8699344, 9033810, 9368262, 9702700, 10037122, 10371529, 10705920, 
   11040294, 11374651, 11708990, 12043311, 12377614, 12711897, 13046160, 
   13380403, 13714625, 14048826, 14383005, 14717162, 15051296, 15385407, 
   15719493, 16053555, 16387593, 16721604, 17055590, 17389549, 17723482, 
   18057386, 18391263, 18725111, 19058930, 19392719, 19726478, 20060207, 
   20393904, 20727570, 21061203, 21394804, 21728371, 22061905, 22395404, 
   22728869, 23062298, 23395692, 23729049, 24062369, 24395652, 24728896, 
   25062103, 25395270, 25728398, 26061486, 26394534, 26727540, 27060505, 
   27393428, 27726308, 28059146, 28391939, 28724689, 29057394, 29390053, 
   29722667, 30055235, 30387756, 30720230, 31052656, 31385034, 31717363, 
   32049643, 32381873, 32714053, 33046182, 33378259, 33710285, 34042258, 
   34374178, 34706045, 35037858, 35369616, 35701320, 36032968, 36364560, 
   36696095, 37027574, 37358995, 37690358, 38021662, 38352907, 38684093, 
   39015218, 39346283, 39677287, 40008229, 40339109, 40669926, 41000680, 
   41331370, 41661996, 41992557, 42323053, 42653483, 42983847, 43314144, 
   43644374, 43974536, 44304629, 44634654, 44964609, 45294495, 45624310, 
   45954054, 46283727, 46613328, 46942856, 47272312, 47601694, 47931001, 
   48260235, 48589393, 48918476, 49247483, 49576414, 49905267, 50234043, 
   50562741, 50891360, 51219900, 51548360, 51876740, 52205040, 52533259, 
   52861396, 53189450, 53517422, 53845311, 54173117, 54500838, 54828474, 
   55156025, 55483490, 55810870, 56138162, 56465367, 56792485, 57119514, 
   57446454, 57773305, 58100066, 58426737, 58753318, 59079807, 59406204, 
   59732508, 60058720, 60384839, 60710864, 61036794, 61362629, 61688370, 
   62014014, 62339562, 62665013, 62990366, 63315622, 63640779, 63965838, 
   64290797, 64615656, 64940414, 65265072, 65589628, 65914083, 66238435, 
   66562684, 66886829, 67210871, 67534808, 67858640, 68182366, 68505987, 
   68829501, 69152909, 69476208, 69799400, 70122484, 70445458, 70768323, 
   71091078, 71413722, 71736255, 72058677, 72380987, 72703185, 73025269, 
   73347240, 73669097, 73990839, 74312467, 74633979, 74955375, 75276654, 
   75597817, 75918862, 76239789, 76560597, 76881287, 77201857, 77522307, 
   77842636, 78162845, 78482932, 78802897, 79122740, 79442459, 79762056, 
   80081528, 80400876, 80720098, 81039196, 81358167, 81677012, 81995730, 
   82314321, 82632784, 82951118, 83269323, 83587399, 83905345, 84223161, 
   84540845, 84858399, 85175820, 85493109, 85810265, 86127288, 86444177, 
   86760932, 87077552, 87394036, 87710385, 88026597, 88342672, 88658611, 
   88974411, 89290073, 89605596, 89920981, 90236225, 90551329, 90866292, 
   91181114, 91495795, 91810333, 92124729, 92438981, 92753090, 93067054, 
   93380874, 93694549, 94008078, 94321461, 94634698, 94947787, 95260729, 
   95573523, 95886168, 96198664, 96511011, 96823207, 97135254, 97447149, 
   97758893, 98070484, 98381924, 98693210, 99004344, 99315323, 99626148, 
   99936818, 100247333, 100557692, 100867894, 101177940, 101487829, 101797560, 
   102107133, 102416547, 102725802, 103034897, 103343832, 103652606, 103961220, 
   104269672, 104577961, 104886089, 105194053, 105501854, 105809490, 106116963, 
   106424270, 106731412, 107038388, 107345198, 107651841, 107958316, 108264624, 
   108570764, 108876735, 109182536, 109488168, 109793630, 110098921, 110404041, 
   110708989, 111013766, 111318370, 111622801, 111927058, 112231141, 112535050, 
   112838784, 113142343, 113445726, 113748932, 114051962, 114354815, 114657489, 
   114959986, 115262304, 115564443, 115866402, 116168181, 116469779, 116771197, 
   117072433, 117373487, 117674359, 117975047, 118275553, 118575875, 118876012, 
   119175964, 119475732, 119775313, 120074709, 120373918, 120672940, 120971774, 
   121270420, 121568878, 121867147, 122165226, 122463116, 122760815, 123058324, 
   123355641, 123652766, 123949700, 124246440, 124542988, 124839342, 125135502, 
   125431467, 125727238, 126022813, 126318192, 126613375, 126908362, 127203150, 
   127497742, 127792135, 128086329, 128380325, 128674121, 128967717, 129261112, 
   129554307, 129847300, 130140091, 130432681, 130725067, 131017250, 131309230, 
   131601006, 131892577, 132183943, 132475104, 132766058, 133056807, 133347348, 
   133637683, 133927809, 134217728, 134507438, 134796939, 135086230, 135375312, 
   135664183, 135952843, 136241292, 136529529, 136817554, 137105366, 137392966, 
   137680351, 137967523, 138254480, 138541223, 138827750, 139114061, 139400157, 
   139686035, 139971697, 140257140, 140542366, 140827374, 141112162, 141396732, 
   141681081, 141965211, 142249119, 142532807, 142816273, 143099517, 143382539, 
   143665338, 143947913, 144230265, 144512393, 144794296, 145075974, 145357427, 
   145638654, 145919654, 146200428, 146480974, 146761293, 147041383, 147321246, 
   147600879, 147880282, 148159456, 148438400, 148717113, 148995595, 149273845, 
   149551863, 149829649, 150107202, 150384522, 150661608, 150938459, 151215077, 
   151491459, 151767606, 152043516, 152319191, 152594629, 152869830, 153144793, 
   153419518, 153694004, 153968252, 154242261, 154516030, 154789558, 155062846, 
   155335893, 155608699, 155881263, 156153584, 156425663, 156697499, 156969091, 
   157240439, 157511543, 157782402, 158053016, 158323384, 158593506, 158863382, 
   159133011, 159402392, 159671526, 159940412, 160209049, 160477437, 160745575, 
   161013464, 161281102, 161548490, 161815627, 162082512, 162349146, 162615527, 
   162881655, 163147530, 163413152, 163678519, 163943633, 164208491, 164473094, 
   164737442, 165001534, 165265369, 165528947, 165792268, 166055332, 166318137, 
   166580684, 166842972, 167105000, 167366769, 167628278, 167889526, 168150514, 
   168411240, 168671704, 168931906, 169191846, 169451522, 169710936, 169970085, 
   170228971, 170487591, 170745947, 171004038, 171261862, 171519421, 171776713, 
   172033738, 172290495, 172546985, 172803207, 173059160, 173314844, 173570259, 
   173825404, 174080279, 174334883, 174589216, 174843278, 175097069, 175350587, 
   175603832, 175856805, 176109505, 176361930, 176614082, 176865959, 177117561, 
   177368888, 177619940, 177870715, 178121214, 178371436, 178621380, 178871048, 
   179120437, 179369547, 179618379, 179866932, 180115206, 180363199, 180610912, 
   180858344, 181105496, 181352365, 181598953, 181845259, 182091282, 182337022, 
   182582479, 182827652, 183072541, 183317145, 183561464, 183805499, 184049247, 
   184292709, 184535885, 184778774, 185021376, 185263691, 185505717, 185747455, 
   185988905, 186230065, 186470936, 186711518, 186951809, 187191809, 187431519, 
   187670937, 187910063, 188148898, 188387440, 188625689, 188863646, 189101308, 
   189338677, 189575751, 189812531, 190049016, 190285206, 190521099, 190756697, 
   190991998, 191227002, 191461710, 191696119, 191930231, 192164044, 192397559, 
   192630774, 192863691, 193096307, 193328624, 193560640, 193792355, 194023769, 
   194254881, 194485692, 194716200, 194946406, 195176308, 195405908, 195635203, 
   195864195, 196092882, 196321264, 196549342, 196777113, 197004579, 197231739, 
   197458593, 197685139, 197911378, 198137310, 198362933, 198588249, 198813255, 
   199037953, 199262341, 199486420, 199710189, 199933647, 200156795, 200379631, 
   200602156, 200824369, 201046270, 201267859, 201489135, 201710098, 201930747, 
   202151082, 202371104, 202590810, 202810202, 203029279, 203248040, 203466485, 
   203684614, 203902427, 204119922, 204337100, 204553961, 204770504, 204986729, 
   205202635, 205418222, 205633489, 205848438, 206063066, 206277374, 206491361, 
   206705028, 206918373, 207131397, 207344099, 207556478, 207768535, 207980269, 
   208191680, 208402767, 208613531, 208823970, 209034084, 209243874, 209453338, 
   209662477, 209871291, 210079777, 210287938, 210495772, 210703278, 210910457, 
   211117308, 211323831, 211530026, 211735892, 211941429, 212146636, 212351514, 
   212556062, 212760279, 212964166, 213167721, 213370946, 213573839, 213776399, 
   213978628, 214180524, 214382087, 214583317, 214784214, 214984777, 215185005, 
   215384899, 215584459, 215783683, 215982572, 216181125, 216379343, 216577224, 
   216774768, 216971975, 217168846, 217365379, 217561574, 217757430, 217952949, 
   218148128, 218342969, 218537470, 218731632, 218925454, 219118935, 219312076, 
   219504876, 219697335, 219889453, 220081228, 220272662, 220463753, 220654502, 
   220844908, 221034970, 221224689, 221414064, 221603095, 221791782, 221980124, 
   222168121, 222355773, 222543079, 222730039, 222916653, 223102921, 223288842, 
   223474415, 223659642, 223844521, 224029052, 224213235, 224397069, 224580555, 
   224763691, 224946479, 225128916, 225311004, 225492742, 225674129, 225855165, 
   226035851, 226216185, 226396167, 226575798, 226755077, 226934003, 227112576, 
   227290797, 227468664, 227646177, 227823337, 228000143, 228176595, 228352691, 
   228528433, 228703820, 228878851, 229053527, 229227847, 229401810, 229575417, 
   229748667, 229921560, 230094095, 230266273, 230438093, 230609555, 230780659, 
   230951404, 231121790, 231291817, 231461484, 231630791, 231799739, 231968326, 
   232136553, 232304419, 232471924, 232639068, 232805850, 232972270, 233138329, 
   233304024, 233469358, 233634328, 233798935, 233963179, 234127060, 234290576, 
   234453729, 234616517, 234778940, 234940998, 235102692, 235264020, 235424982, 
   235585578, 235745809, 235905672, 236065170, 236224300, 236383063, 236541459, 
   236699487, 236857148, 237014440, 237171364, 237327919, 237484105, 237639923, 
   237795370, 237950449, 238105157, 238259496, 238413464, 238567062, 238720289, 
   238873145, 239025629, 239177743, 239329484, 239480854, 239631851, 239782476, 
   239932728, 240082607, 240232113, 240381246, 240530005, 240678391, 240826402, 
   240974039, 241121302, 241268190, 241414703, 241560840, 241706602, 241851989, 
   241997000, 242141634, 242285892, 242429774, 242573279, 242716407, 242859158, 
   243001531, 243143526, 243285144, 243426384, 243567245, 243707728, 243847832, 
   243987557, 244126902, 244265869, 244404455, 244542662, 244680489, 244817936, 
   244955002, 245091687, 245227991, 245363915, 245499457, 245634617, 245769396, 
   245903793, 246037807, 246171439, 246304689, 246437556, 246570039, 246702140, 
   246833857, 246965190, 247096140, 247226706, 247356887, 247486684, 247616096, 
   247745124, 247873766, 248002024, 248129895, 248257382, 248384482, 248511196, 
   248637524, 248763466, 248889021, 249014189, 249138970, 249263364, 249387371, 
   249510990, 249634221, 249757064, 249879519, 250001586, 250123264, 250244553, 
   250365454, 250485965, 250606087, 250725820, 250845163, 250964116, 251082679, 
   251200852, 251318634, 251436026, 251553027, 251669637, 251785856, 251901684, 
   252017120, 252132165, 252246817, 252361078, 252474946, 252588422, 252701505, 
   252814196, 252926494, 253038399, 253149910, 253261028, 253371752, 253482083, 
   253592019, 253701562, 253810710, 253919464, 254027823, 254135787, 254243356, 
   254350531, 254457309, 254563693, 254669681, 254775273, 254880469, 254985268, 
   255089672, 255193679, 255297290, 255400503, 255503320, 255605740, 255707762, 
   255809387, 255910615, 256011445, 256111876, 256211910, 256311546, 256410783, 
   256509622, 256608062, 256706103, 256803746, 256900989, 256997833, 257094277, 
   257190322, 257285967, 257381213, 257476058, 257570503, 257664548, 257758193, 
   257851436, 257944279, 258036722, 258128763, 258220403, 258311641, 258402479, 
   258492914, 258582948, 258672580, 258761810, 258850638, 258939063, 259027086, 
   259114707, 259201925, 259288740, 259375152, 259461160, 259546766, 259631968, 
   259716767, 259801162, 259885153, 259968741, 260051924, 260134703, 260217078, 
   260299049, 260380614, 260461776, 260542532, 260622884, 260702830, 260782371, 
   260861507, 260940238, 261018563, 261096482, 261173996, 261251104, 261327805, 
   261404101, 261479990, 261555473, 261630549, 261705219, 261779482, 261853338, 
   261926787, 261999829, 262072464, 262144691, 262216512, 262287924, 262358929, 
   262429526, 262499716, 262569497, 262638871, 262707836, 262776393, 262844541, 
   262912281, 262979612, 263046535, 263113049, 263179154, 263244849, 263310136, 
   263375014, 263439482, 263503541, 263567190, 263630429, 263693259, 263755679, 
   263817689, 263879289, 263940479, 264001259, 264061629, 264121588, 264181136, 
   264240274, 264299002, 264357318, 264415224, 264472719, 264529802, 264586475, 
   264642736, 264698586, 264754025, 264809052, 264863668, 264917872, 264971664, 
   265025045, 265078013, 265130570, 265182715, 265234447, 265285767, 265336675, 
   265387171, 265437254, 265486924, 265536182, 265585027, 265633460, 265681480, 
   265729086, 265776280, 265823061, 265869428, 265915382, 265960923, 266006051, 
   266050765, 266095066, 266138953, 266182427, 266225487, 266268133, 266310365, 
   266352184, 266393588, 266434579, 266475155, 266515317, 266555065, 266594399, 
   266633319, 266671824, 266709914, 266747590, 266784852, 266821699, 266858131, 
   266894148, 266929751, 266964938, 266999711, 267034069, 267068012, 267101540, 
   267134653, 267167350, 267199632, 267231499, 267262951, 267293987, 267324608, 
   267354814, 267384604, 267413978, 267442937, 267471480, 267499607, 267527319, 
   267554615, 267581495, 267607959, 267634007, 267659640, 267684856, 267709656, 
   267734041, 267758009, 267781561, 267804697, 267827416, 267849720, 267871607, 
   267893077, 267914132, 267934770, 267954991, 267974797, 267994185, 268013157, 
   268031713, 268049852, 268067575, 268084880, 268101770, 268118242, 268134298, 
   268149937, 268165159, 268179965, 268194354, 268208326, 268221881, 268235019, 
   268247740, 268260045, 268271932, 268283403, 268294457, 268305093, 268315313, 
   268325116, 268334501, 268343470, 268352021, 268360156, 268367873, 268375174, 
   268382057, 268388523, 268394572, 268400204, 268405419, 268410216, 268414597, 
   268418560, 268422106, 268425235, 268427947, 268430241, 268432118, 268433579, 
   268434622, 268435247>> 
=============================================================================
