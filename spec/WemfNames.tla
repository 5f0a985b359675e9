------------------------------ MODULE WemfNames ------------------------------
(* Names of WMF and EMF record types, modes, objects and raster operations,  *)
(* by number, as pairs of 16-bit halves <<high, low, name>>.                 *)
EmfTypes == <<
  <<0, 1, "EMR_HEADER">>,
  <<0, 2, "EMR_POLYBEZIER">>,
  <<0, 3, "EMR_POLYGON">>,
  <<0, 4, "EMR_POLYLINE">>,
  <<0, 5, "EMR_POLYBEZIERTO">>,
  <<0, 6, "EMR_POLYLINETO">>,
  <<0, 7, "EMR_POLYPOLYLINE">>,
  <<0, 8, "EMR_POLYPOLYGON">>,
  <<0, 9, "EMR_SETWINDOWEXTEX">>,
  <<0, 10, "EMR_SETWINDOWORGEX">>,
  <<0, 11, "EMR_SETVIEWPORTEXTEX">>,
  <<0, 12, "EMR_SETVIEWPORTORGEX">>,
  <<0, 13, "EMR_SETBRUSHORGEX">>,
  <<0, 14, "EMR_EOF">>,
  <<0, 15, "EMR_SETPIXELV">>,
  <<0, 16, "EMR_SETMAPPERFLAGS">>,
  <<0, 17, "EMR_SETMAPMODE">>,
  <<0, 18, "EMR_SETBKMODE">>,
  <<0, 19, "EMR_SETPOLYFILLMODE">>,
  <<0, 20, "EMR_SETROP2">>,
  <<0, 21, "EMR_SETSTRETCHBLTMODE">>,
  <<0, 22, "EMR_SETTEXTALIGN">>,
  <<0, 23, "EMR_SETCOLORADJUSTMENT">>,
  <<0, 24, "EMR_SETTEXTCOLOR">>,
  <<0, 25, "EMR_SETBKCOLOR">>,
  <<0, 26, "EMR_OFFSETCLIPRGN">>,
  <<0, 27, "EMR_MOVETOEX">>,
  <<0, 28, "EMR_SETMETARGN">>,
  <<0, 29, "EMR_EXCLUDECLIPRECT">>,
  <<0, 30, "EMR_INTERSECTCLIPRECT">>,
  <<0, 31, "EMR_SCALEVIEWPORTEXTEX">>,
  <<0, 32, "EMR_SCALEWINDOWEXTEX">>,
  <<0, 33, "EMR_SAVEDC">>,
  <<0, 34, "EMR_RESTOREDC">>,
  <<0, 35, "EMR_SETWORLDTRANSFORM">>,
  <<0, 36, "EMR_MODIFYWORLDTRANSFORM">>,
  <<0, 37, "EMR_SELECTOBJECT">>,
  <<0, 38, "EMR_CREATEPEN">>,
  <<0, 39, "EMR_CREATEBRUSHINDIRECT">>,
  <<0, 40, "EMR_DELETEOBJECT">>,
  <<0, 41, "EMR_ANGLEARC">>,
  <<0, 42, "EMR_ELLIPSE">>,
  <<0, 43, "EMR_RECTANGLE">>,
  <<0, 44, "EMR_ROUNDRECT">>,
  <<0, 45, "EMR_ARC">>,
  <<0, 46, "EMR_CHORD">>,
  <<0, 47, "EMR_PIE">>,
  <<0, 48, "EMR_SELECTPALETTE">>,
  <<0, 49, "EMR_CREATEPALETTE">>,
  <<0, 50, "EMR_SETPALETTEENTRIES">>,
  <<0, 51, "EMR_RESIZEPALETTE">>,
  <<0, 52, "EMR_REALIZEPALETTE">>,
  <<0, 53, "EMR_EXTFLOODFILL">>,
  <<0, 54, "EMR_LINETO">>,
  <<0, 55, "EMR_ARCTO">>,
  <<0, 56, "EMR_POLYDRAW">>,
  <<0, 57, "EMR_SETARCDIRECTION">>,
  <<0, 58, "EMR_SETMITERLIMIT">>,
  <<0, 59, "EMR_BEGINPATH">>,
  <<0, 60, "EMR_ENDPATH">>,
  <<0, 61, "EMR_CLOSEFIGURE">>,
  <<0, 62, "EMR_FILLPATH">>,
  <<0, 63, "EMR_STROKEANDFILLPATH">>,
  <<0, 64, "EMR_STROKEPATH">>,
  <<0, 65, "EMR_FLATTENPATH">>,
  <<0, 66, "EMR_WIDENPATH">>,
  <<0, 67, "EMR_SELECTCLIPPATH">>,
  <<0, 68, "EMR_ABORTPATH">>,
  <<0, 70, "EMR_COMMENT">>,
  <<0, 71, "EMR_FILLRGN">>,
  <<0, 72, "EMR_FRAMERGN">>,
  <<0, 73, "EMR_INVERTRGN">>,
  <<0, 74, "EMR_PAINTRGN">>,
  <<0, 75, "EMR_EXTSELECTCLIPRGN">>,
  <<0, 76, "EMR_BITBLT">>,
  <<0, 77, "EMR_STRETCHBLT">>,
  <<0, 78, "EMR_MASKBLT">>,
  <<0, 79, "EMR_PLGBLT">>,
  <<0, 80, "EMR_SETDIBITSTODEVICE">>,
  <<0, 81, "EMR_STRETCHDIBITS">>,
  <<0, 82, "EMR_EXTCREATEFONTINDIRECTW">>,
  <<0, 83, "EMR_EXTTEXTOUTA">>,
  <<0, 84, "EMR_EXTTEXTOUTW">>,
  <<0, 85, "EMR_POLYBEZIER16">>,
  <<0, 86, "EMR_POLYGON16">>,
  <<0, 87, "EMR_POLYLINE16">>,
  <<0, 88, "EMR_POLYBEZIERTO16">>,
  <<0, 89, "EMR_POLYLINETO16">>,
  <<0, 90, "EMR_POLYPOLYLINE16">>,
  <<0, 91, "EMR_POLYPOLYGON16">>,
  <<0, 92, "EMR_POLYDRAW16">>,
  <<0, 93, "EMR_CREATEMONOBRUSH">>,
  <<0, 94, "EMR_CREATEDIBPATTERNBRUSHPT">>,
  <<0, 95, "EMR_EXTCREATEPEN">>,
  <<0, 96, "EMR_POLYTEXTOUTA">>,
  <<0, 97, "EMR_POLYTEXTOUTW">>,
  <<0, 98, "EMR_SETICMMODE">>,
  <<0, 99, "EMR_CREATECOLORSPACE">>,
  <<0, 100, "EMR_SETCOLORSPACE">>,
  <<0, 101, "EMR_DELETECOLORSPACE">>,
  <<0, 102, "EMR_GLSRECORD">>,
  <<0, 103, "EMR_GLSBOUNDEDRECORD">>,
  <<0, 104, "EMR_PIXELFORMAT">>,
  <<0, 105, "EMR_DRAWESCAPE">>,
  <<0, 106, "EMR_EXTESCAPE">>,
  <<0, 108, "EMR_SMALLTEXTOUT">>,
  <<0, 109, "EMR_FORCEUFIMAPPING">>,
  <<0, 110, "EMR_NAMEDESCAPE">>,
  <<0, 111, "EMR_COLORCORRECTPALETTE">>,
  <<0, 112, "EMR_SETICMPROFILEA">>,
  <<0, 113, "EMR_SETICMPROFILEW">>,
  <<0, 114, "EMR_ALPHABLEND">>,
  <<0, 115, "EMR_SETLAYOUT">>,
  <<0, 116, "EMR_TRANSPARENTBLT">>,
  <<0, 118, "EMR_GRADIENTFILL">>,
  <<0, 119, "EMR_SETLINKEDUFIS">>,
  <<0, 120, "EMR_SETTEXTJUSTIFICATION">>,
  <<0, 121, "EMR_COLORMATCHTOTARGETW">>,
  <<0, 122, "EMR_CREATECOLORSPACEW">>
>>
EmfObjects == <<
  <<32768, 0, "WHITE_BRUSH">>,
  <<32768, 1, "LTGRAY_BRUSH">>,
  <<32768, 2, "GRAY_BRUSH">>,
  <<32768, 3, "DKGRAY_BRUSH">>,
  <<32768, 4, "BLACK_BRUSH">>,
  <<32768, 5, "NULL_BRUSH">>,
  <<32768, 6, "WHITE_PEN">>,
  <<32768, 7, "BLACK_PEN">>,
  <<32768, 8, "NULL_PEN">>,
  <<32768, 10, "OEM_FIXED_FONT">>,
  <<32768, 11, "ANSI_FIXED_FONT">>,
  <<32768, 12, "ANSI_VAR_FONT">>,
  <<32768, 13, "SYSTEM_FONT">>,
  <<32768, 14, "DEVICE_DEFAULT_FONT">>,
  <<32768, 15, "DEFAULT_PALETTE">>,
  <<32768, 16, "SYSTEM_FIXED_FONT">>,
  <<32768, 17, "DEFAULT_GUI_FONT">>,
  <<32768, 18, "DC_BRUSH">>,
  <<32768, 19, "DC_PEN">>
>>
WmfTypes == <<
  <<0, 0, "META_EOF">>,
  <<0, 30, "META_SAVEDC">>,
  <<0, 53, "META_REALIZEPALETTE">>,
  <<0, 55, "META_SETPALENTRIES">>,
  <<0, 247, "META_CREATEPALETTE">>,
  <<0, 258, "META_SETBKMODE">>,
  <<0, 259, "META_SETMAPMODE">>,
  <<0, 260, "META_SETROP2">>,
  <<0, 261, "META_SETRELABS">>,
  <<0, 262, "META_SETPOLYFILLMODE">>,
  <<0, 263, "META_SETSTRETCHBLTMODE">>,
  <<0, 264, "META_SETTEXTCHAREXTRA">>,
  <<0, 295, "META_RESTOREDC">>,
  <<0, 298, "META_INVERTREGION">>,
  <<0, 299, "META_PAINTREGION">>,
  <<0, 300, "META_SELECTCLIPREGION">>,
  <<0, 301, "META_SELECTOBJECT">>,
  <<0, 302, "META_SETTEXTALIGN">>,
  <<0, 313, "META_RESIZEPALETTE">>,
  <<0, 322, "META_DIBCREATEPATTERNBRUSH">>,
  <<0, 329, "META_SETLAYOUT">>,
  <<0, 496, "META_DELETEOBJECT">>,
  <<0, 505, "META_CREATEPATTERNBRUSH">>,
  <<0, 513, "META_SETBKCOLOR">>,
  <<0, 521, "META_SETTEXTCOLOR">>,
  <<0, 522, "META_SETTEXTJUSTIFICATION">>,
  <<0, 523, "META_SETWINDOWORG">>,
  <<0, 524, "META_SETWINDOWEXT">>,
  <<0, 525, "META_SETVIEWPORTORG">>,
  <<0, 526, "META_SETVIEWPORTEXT">>,
  <<0, 527, "META_OFFSETWINDOWORG">>,
  <<0, 529, "META_OFFSETVIEWPORTORG">>,
  <<0, 531, "META_LINETO">>,
  <<0, 532, "META_MOVETO">>,
  <<0, 544, "META_OFFSETCLIPRGN">>,
  <<0, 552, "META_FILLREGION">>,
  <<0, 561, "META_SETMAPPERFLAGS">>,
  <<0, 564, "META_SELECTPALETTE">>,
  <<0, 762, "META_CREATEPENINDIRECT">>,
  <<0, 763, "META_CREATEFONTINDIRECT">>,
  <<0, 764, "META_CREATEBRUSHINDIRECT">>,
  <<0, 804, "META_POLYGON">>,
  <<0, 805, "META_POLYLINE">>,
  <<0, 1040, "META_SCALEWINDOWEXT">>,
  <<0, 1042, "META_SCALEVIEWPORTEXT">>,
  <<0, 1045, "META_EXCLUDECLIPRECT">>,
  <<0, 1046, "META_INTERSECTCLIPRECT">>,
  <<0, 1048, "META_ELLIPSE">>,
  <<0, 1049, "META_FLOODFILL">>,
  <<0, 1051, "META_RECTANGLE">>,
  <<0, 1055, "META_SETPIXEL">>,
  <<0, 1065, "META_FRAMEREGION">>,
  <<0, 1078, "META_ANIMATEPALETTE">>,
  <<0, 1313, "META_TEXTOUT">>,
  <<0, 1336, "META_POLYPOLYGON">>,
  <<0, 1352, "META_EXTFLOODFILL">>,
  <<0, 1564, "META_ROUNDRECT">>,
  <<0, 1565, "META_PATBLT">>,
  <<0, 1574, "META_ESCAPE">>,
  <<0, 1791, "META_CREATEREGION">>,
  <<0, 2071, "META_ARC">>,
  <<0, 2074, "META_PIE">>,
  <<0, 2096, "META_CHORD">>,
  <<0, 2338, "META_BITBLT">>,
  <<0, 2368, "META_DIBBITBLT">>,
  <<0, 2610, "META_EXTTEXTOUT">>,
  <<0, 2851, "META_STRETCHBLT">>,
  <<0, 2881, "META_DIBSTRETCHBLT">>,
  <<0, 3379, "META_SETDIBTODEV">>,
  <<0, 3907, "META_STRETCHDIB">>
>>
MapModes == <<
  <<0, 1, "MM_TEXT">>,
  <<0, 2, "MM_LOMETRIC">>,
  <<0, 3, "MM_HIMETRIC">>,
  <<0, 4, "MM_LOENGLISH">>,
  <<0, 5, "MM_HIENGLISH">>,
  <<0, 6, "MM_TWIPS">>,
  <<0, 7, "MM_ISOTROPIC">>,
  <<0, 8, "MM_ANISOTROPIC">>
>>
StretchModes == <<
  <<0, 1, "BLACKONWHITE">>,
  <<0, 2, "WHITEONBLACK">>,
  <<0, 3, "COLORONCOLOR">>,
  <<0, 4, "HALFTONE">>
>>
RasterOperations == <<
  <<0, 66, "BLACKNESS">>,
  <<1, 649, "DPSOON">>,
  <<2, 3209, "DPSONA">>,
  <<3, 170, "PSON">>,
  <<4, 3208, "SDPONA">>,
  <<5, 169, "DPON">>,
  <<6, 2149, "PDSXNON">>,
  <<7, 709, "PDSAON">>,
  <<8, 3848, "SDPNAA">>,
  <<9, 581, "PDSXON">>,
  <<10, 809, "DPNA">>,
  <<11, 2858, "PSDNAON">>,
  <<12, 804, "SPNA">>,
  <<13, 2853, "PDSNAON">>,
  <<14, 2213, "PDSONON">>,
  <<15, 1, "PN">>,
  <<16, 3205, "PDSONA">>,
  <<17, 166, "NOTSRCERASE">>,
  <<18, 2152, "SDPXNON">>,
  <<19, 712, "SDPAON">>,
  <<20, 2153, "DPSXNON">>,
  <<21, 713, "DPSAON">>,
  <<22, 23754, "PSDPSANAXX">>,
  <<23, 7508, "SSPXDSXAXN">>,
  <<24, 3417, "SPXPDXA">>,
  <<25, 7368, "SDPSANAXN">>,
  <<26, 1733, "PDSPAOX">>,
  <<27, 1896, "SDPSXAXN">>,
  <<28, 1738, "PSDPAOX">>,
  <<29, 1894, "DSPDXAXN">>,
  <<30, 421, "PDSOX">>,
  <<31, 901, "PDSOAN">>,
  <<32, 3849, "DPSNAA">>,
  <<33, 584, "SDPXON">>,
  <<34, 806, "DSNA">>,
  <<35, 2852, "SPDNAON">>,
  <<36, 3413, "SPXDSXA">>,
  <<37, 7365, "PDSPANAXN">>,
  <<38, 1736, "SDPSAOX">>,
  <<39, 6248, "SDPSXNOX">>,
  <<40, 873, "DPSXA">>,
  <<41, 5834, "PSDPSAOXXN">>,
  <<42, 3273, "DPSANA">>,
  <<43, 7512, "SSPXPDXAXN">>,
  <<44, 1924, "SPDSOAX">>,
  <<45, 1546, "PSDNOX">>,
  <<46, 1610, "PSDPXOX">>,
  <<47, 3626, "PSDNOAN">>,
  <<48, 810, "PSNA">>,
  <<49, 2856, "SDPNAON">>,
  <<50, 1672, "SDPSOOX">>,
  <<51, 8, "NOTSRCCOPY">>,
  <<52, 1732, "SPDSAOX">>,
  <<53, 6244, "SPDSXNOX">>,
  <<54, 424, "SDPOX">>,
  <<55, 904, "SDPOAN">>,
  <<56, 1930, "PSDPOAX">>,
  <<57, 1540, "SPDNOX">>,
  <<58, 1604, "SPDSXOX">>,
  <<59, 3620, "SPDNOAN">>,
  <<60, 74, "PSX">>,
  <<61, 6308, "SPDSONOX">>,
  <<62, 6948, "SPDSNAOX">>,
  <<63, 234, "PSAN">>,
  <<64, 3850, "PSDNAA">>,
  <<65, 585, "DPSXON">>,
  <<66, 3421, "SDXPDXA">>,
  <<67, 7364, "SPDSANAXN">>,
  <<68, 808, "SRCERASE">>,
  <<69, 2857, "DPSNAON">>,
  <<70, 1734, "DSPDAOX">>,
  <<71, 1898, "PSDPXAXN">>,
  <<72, 872, "SDPXA">>,
  <<73, 5829, "PDSPDAOXXN">>,
  <<74, 1929, "DPSDOAX">>,
  <<75, 1541, "PDSNOX">>,
  <<76, 3272, "SDPANA">>,
  <<77, 6484, "SSPXDSXOXN">>,
  <<78, 1605, "PDSPXOX">>,
  <<79, 3621, "PDSNOAN">>,
  <<80, 805, "PDNA">>,
  <<81, 2854, "DSPNAON">>,
  <<82, 1737, "DPSDAOX">>,
  <<83, 1892, "SPDSXAXN">>,
  <<84, 2217, "DPSONON">>,
  <<85, 9, "DSTINVERT">>,
  <<86, 425, "DPSOX">>,
  <<87, 905, "DPSOAN">>,
  <<88, 1925, "PDSPOAX">>,
  <<89, 1545, "DPSNOX">>,
  <<90, 73, "PATINVERT">>,
  <<91, 6313, "DPSDONOX">>,
  <<92, 1609, "DPSDXOX">>,
  <<93, 3625, "DPSNOAN">>,
  <<94, 6953, "DPSDNAOX">>,
  <<95, 233, "DPAN">>,
  <<96, 869, "PDSXA">>,
  <<97, 5830, "DSPDSAOXXN">>,
  <<98, 1926, "DSPDOAX">>,
  <<99, 1544, "SDPNOX">>,
  <<100, 1928, "SDPSOAX">>,
  <<101, 1542, "DSPNOX">>,
  <<102, 70, "SRCINVERT">>,
  <<103, 6312, "SDPSONOX">>,
  <<104, 22694, "DSPDSONOXXN">>,
  <<105, 325, "PDSXXN">>,
  <<106, 489, "DPSAX">>,
  <<107, 6026, "PSDPSOAXXN">>,
  <<108, 488, "SDPAX">>,
  <<109, 6021, "PDSPDOAXXN">>,
  <<110, 7720, "SDPSNOAX">>,
  <<111, 3173, "PDXNAN">>,
  <<112, 3269, "PDSANA">>,
  <<113, 7516, "SSDXPDXAXN">>,
  <<114, 1608, "SDPSXOX">>,
  <<115, 3624, "SDPNOAN">>,
  <<116, 1606, "DSPDXOX">>,
  <<117, 3622, "DSPNOAN">>,
  <<118, 6952, "SDPSNAOX">>,
  <<119, 230, "DSAN">>,
  <<120, 485, "PDSAX">>,
  <<121, 6022, "DSPDSOAXXN">>,
  <<122, 7721, "DPSDNOAX">>,
  <<123, 3176, "SDPXNAN">>,
  <<124, 7716, "SPDSNOAX">>,
  <<125, 3177, "DPSXNAN">>,
  <<126, 2389, "SPXDSXO">>,
  <<127, 969, "DPSAAN">>,
  <<128, 1001, "DPSAA">>,
  <<129, 2421, "SPXDSXON">>,
  <<130, 3145, "DPSXNA">>,
  <<131, 7684, "SPDSNOAXN">>,
  <<132, 3144, "SDPXNA">>,
  <<133, 7685, "PDSPNOAXN">>,
  <<134, 6054, "DSPDSOAXX">>,
  <<135, 453, "PDSAXN">>,
  <<136, 198, "SRCAND">>,
  <<137, 6920, "SDPSNAOXN">>,
  <<138, 3590, "DSPNOA">>,
  <<139, 1638, "DSPDXOXN">>,
  <<140, 3592, "SDPNOA">>,
  <<141, 1640, "SDPSXOXN">>,
  <<142, 7548, "SSDXPDXAX">>,
  <<143, 3301, "PDSANAN">>,
  <<144, 3141, "PDSXNA">>,
  <<145, 7688, "SDPSNOAXN">>,
  <<146, 6057, "DPSDPOAXX">>,
  <<147, 452, "SPDAXN">>,
  <<148, 6058, "PSDPSOAXX">>,
  <<149, 457, "DPSAXN">>,
  <<150, 361, "DPSXX">>,
  <<151, 22666, "PSDPSONOXX">>,
  <<152, 6280, "SDPSONOXN">>,
  <<153, 102, "DSXN">>,
  <<154, 1801, "DPSNAX">>,
  <<155, 1960, "SDPSOAXN">>,
  <<156, 1796, "SPDNAX">>,
  <<157, 1958, "DSPDOAXN">>,
  <<158, 5862, "DSPDSAOXX">>,
  <<159, 837, "PDSXAN">>,
  <<160, 201, "DPA">>,
  <<161, 6917, "PDSPNAOXN">>,
  <<162, 3593, "DPSNOA">>,
  <<163, 1641, "DPSDXOXN">>,
  <<164, 6277, "PDSPONOXN">>,
  <<165, 101, "PDXN">>,
  <<166, 1798, "DSPNAX">>,
  <<167, 1957, "PDSPOAXN">>,
  <<168, 937, "DPSOA">>,
  <<169, 393, "DPSOXN">>,
  <<170, 41, "D">>,
  <<171, 2185, "DPSONO">>,
  <<172, 1860, "SPDSXAX">>,
  <<173, 1769, "DPSDAOXN">>,
  <<174, 2822, "DSPNAO">>,
  <<175, 553, "DPNO">>,
  <<176, 3589, "PDSNOA">>,
  <<177, 1637, "PDSPXOXN">>,
  <<178, 6516, "SSPXDSXOX">>,
  <<179, 3304, "SDPANAN">>,
  <<180, 1802, "PSDNAX">>,
  <<181, 1961, "DPSDOAXN">>,
  <<182, 5865, "DPSDPAOXX">>,
  <<183, 840, "SDPXAN">>,
  <<184, 1866, "PSDPXAX">>,
  <<185, 1766, "DSPDAOXN">>,
  <<186, 2825, "DPSNAO">>,
  <<187, 550, "MERGEPAINT">>,
  <<188, 7396, "SPDSANAX">>,
  <<189, 3453, "SDXPDXAN">>,
  <<190, 617, "DPSXO">>,
  <<191, 2249, "DPSANO">>,
  <<192, 202, "MERGECOPY">>,
  <<193, 6916, "SPDSNAOXN">>,
  <<194, 6276, "SPDSONOXN">>,
  <<195, 106, "PSXN">>,
  <<196, 3588, "SPDNOA">>,
  <<197, 1636, "SPDSXOXN">>,
  <<198, 1800, "SDPNAX">>,
  <<199, 1962, "PSDPOAXN">>,
  <<200, 936, "SDPOA">>,
  <<201, 388, "SPDOXN">>,
  <<202, 1865, "DPSDXAX">>,
  <<203, 1764, "SPDSAOXN">>,
  <<204, 32, "SRCCOPY">>,
  <<205, 2184, "SDPONO">>,
  <<206, 2824, "SDPNAO">>,
  <<207, 548, "SPNO">>,
  <<208, 3594, "PSDNOA">>,
  <<209, 1642, "PSDPXOXN">>,
  <<210, 1797, "PDSNAX">>,
  <<211, 1956, "SPDSOAXN">>,
  <<212, 7544, "SSPXPDXAX">>,
  <<213, 3305, "DPSANAN">>,
  <<214, 5866, "PSDPSAOXX">>,
  <<215, 841, "DPSXAN">>,
  <<216, 1861, "PDSPXAX">>,
  <<217, 1768, "SDPSAOXN">>,
  <<218, 7401, "DPSDANAX">>,
  <<219, 3445, "SPXDSXAN">>,
  <<220, 2820, "SPDNAO">>,
  <<221, 552, "SDNO">>,
  <<222, 616, "SDPXO">>,
  <<223, 2248, "SDPANO">>,
  <<224, 933, "PDSOA">>,
  <<225, 389, "PDSOXN">>,
  <<226, 1862, "DSPDXAX">>,
  <<227, 1770, "PSDPAOXN">>,
  <<228, 1864, "SDPSXAX">>,
  <<229, 1765, "PDSPAOXN">>,
  <<230, 7400, "SDPSANAX">>,
  <<231, 3449, "SPXPDXAN">>,
  <<232, 7540, "SSPXDSXAX">>,
  <<233, 23782, "DSPDSANAXXN">>,
  <<234, 745, "DPSAO">>,
  <<235, 2121, "DPSXNO">>,
  <<236, 744, "SDPAO">>,
  <<237, 2120, "SDPXNO">>,
  <<238, 134, "SRCPAINT">>,
  <<239, 2568, "SDPNOO">>,
  <<240, 33, "PATCOPY">>,
  <<241, 2181, "PDSONO">>,
  <<242, 2821, "PDSNAO">>,
  <<243, 554, "PSNO">>,
  <<244, 2826, "PSDNAO">>,
  <<245, 549, "PDNO">>,
  <<246, 613, "PDSXO">>,
  <<247, 2245, "PDSANO">>,
  <<248, 741, "PDSAO">>,
  <<249, 2117, "PDSXNO">>,
  <<250, 137, "DPO">>,
  <<251, 2569, "PATPAINT">>,
  <<252, 138, "PSO">>,
  <<253, 2570, "PSDNOO">>,
  <<254, 681, "DPSOO">>,
  <<255, 98, "WHITENESS">>
>>
=============================================================================
