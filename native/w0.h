/* Two blocks whose rolling checksums are 0 (W0_NEW) and unmix(0xffffffff) (W0_BASIS)
 * and whose MD4 sums start with the same byte. */
static const u8 W0_BASIS[2000] = {
  80,116,169,180,171,198,1,167,231,89,239,35,228,6,112,21,167,88,122,254,142,79,47,146,100,211,98,225,57,246,160,75,40,156,146,168,136,100,201,197,
  101,210,172,26,230,185,0,57,169,250,152,59,183,70,250,231,53,18,223,108,11,88,114,87,127,228,39,248,172,11,152,120,227,236,30,248,3,153,250,14,
  249,102,82,26,113,128,137,96,154,51,229,167,12,24,135,45,90,245,151,71,51,255,197,21,49,156,102,85,199,69,197,57,232,95,246,200,164,136,191,184,
  18,205,116,227,33,218,62,187,176,176,202,49,138,160,56,16,186,40,106,5,98,179,62,10,251,117,104,29,80,153,43,159,45,167,23,97,175,60,146,20,
  14,207,154,81,117,165,246,2,72,198,23,138,188,190,80,43,206,255,176,216,117,222,80,74,25,24,26,251,126,118,214,236,241,136,255,14,249,15,136,133,
  88,213,10,169,222,222,118,212,169,13,213,37,29,179,122,87,191,67,76,83,132,19,13,6,1,190,89,138,16,4,45,23,252,233,168,83,145,40,46,174,
  48,45,88,61,249,152,246,230,9,101,141,152,166,197,20,72,144,229,231,127,206,126,30,224,145,1,192,104,11,125,100,34,1,130,160,255,172,27,107,31,
  204,160,164,67,227,145,236,187,196,136,227,58,40,162,211,68,124,54,31,119,190,84,97,87,48,107,192,255,204,56,100,204,148,109,68,36,43,130,124,88,
  113,96,220,176,49,38,246,52,214,169,64,106,112,244,70,166,162,69,124,58,42,143,72,17,66,88,8,73,11,23,166,24,59,96,0,40,137,36,222,190,
  8,18,55,18,225,59,102,173,177,97,240,209,8,162,150,1,184,134,192,177,53,3,103,30,25,6,8,29,154,229,203,161,67,195,238,159,59,73,201,71,
  98,232,238,196,199,210,2,168,90,120,171,204,134,205,33,242,124,137,8,113,59,141,231,162,128,1,95,79,190,219,242,227,82,21,192,137,127,75,70,137,
  31,166,232,236,203,205,162,165,138,202,43,69,207,161,70,65,119,98,78,28,217,206,23,111,91,0,39,148,112,31,89,163,125,165,91,85,28,143,213,106,
  154,108,106,169,147,137,229,189,212,52,118,113,44,45,4,113,245,244,212,116,199,29,167,241,66,27,96,234,91,172,37,3,246,122,176,32,253,127,10,56,
  169,56,37,11,124,20,70,201,246,195,62,253,148,34,7,209,80,10,62,49,41,174,169,167,231,24,97,21,148,153,194,16,107,26,86,177,168,169,166,211,
  155,173,220,17,75,43,153,48,197,201,217,246,47,103,69,139,188,222,254,241,29,213,131,11,232,39,124,250,121,18,133,2,116,142,2,92,91,165,60,1,
  160,254,38,37,14,202,21,137,145,15,127,236,129,205,107,213,248,11,154,118,17,102,22,147,223,81,228,214,141,218,20,117,20,223,135,254,83,133,77,187,
  4,99,233,245,92,255,51,57,71,142,240,19,86,142,130,2,73,114,236,184,97,54,242,159,32,74,197,184,23,232,47,252,83,108,32,39,58,254,166,218,
  39,60,92,155,30,159,42,252,6,227,197,167,52,7,141,38,66,189,145,7,176,48,245,33,120,45,78,16,161,102,108,106,38,179,108,169,49,208,107,2,
  53,5,102,149,93,0,73,186,131,212,178,85,253,108,178,72,87,33,156,149,27,135,255,49,166,155,30,89,78,20,77,72,232,145,3,172,124,107,58,56,
  132,190,233,252,180,111,189,67,219,254,142,82,49,69,58,122,147,70,241,111,69,176,59,178,201,104,5,72,85,109,163,109,153,132,85,208,199,184,150,35,
  168,162,31,255,37,84,251,68,174,204,156,23,59,163,55,61,251,216,137,81,220,154,184,29,177,162,70,121,206,75,94,239,255,114,57,183,133,22,13,94,
  40,56,156,90,40,221,22,10,211,0,235,34,183,167,5,97,70,23,108,116,144,164,108,65,15,79,51,213,168,227,16,101,207,107,78,14,149,28,230,74,
  154,68,92,167,178,103,140,214,195,68,165,253,168,125,162,175,21,67,68,111,17,205,176,115,255,77,236,206,181,158,142,16,143,83,5,221,45,124,87,93,
  87,203,179,49,38,228,162,92,158,86,36,44,13,191,137,141,172,210,109,246,105,159,18,22,118,132,69,163,66,53,251,164,57,151,137,99,123,57,146,252,
  142,179,66,105,150,73,121,8,193,43,64,140,199,106,186,151,127,147,41,20,63,172,73,214,101,250,145,112,9,34,210,11,150,246,32,177,78,235,251,122,
  46,15,51,113,5,220,83,244,179,161,109,167,159,31,65,12,49,151,42,62,75,230,5,168,107,236,20,225,56,10,108,66,78,31,34,233,99,223,199,232,
  59,15,53,83,111,100,207,175,49,158,205,152,97,211,87,145,143,127,133,161,189,113,92,86,242,51,158,208,204,149,42,90,160,155,227,122,15,18,197,179,
  4,80,66,88,22,46,112,97,30,30,109,243,16,221,209,250,78,188,197,156,93,1,8,225,238,48,3,128,183,138,62,72,128,236,157,41,225,135,30,134,
  162,69,148,196,30,158,147,248,57,69,117,195,43,56,118,7,116,131,176,145,186,38,217,212,194,130,59,195,37,167,120,26,12,26,67,218,254,88,232,254,
  28,208,177,26,83,7,25,88,31,143,249,183,25,249,28,105,147,92,44,77,64,60,154,84,78,15,19,69,30,100,6,214,54,13,174,243,231,162,132,221,
  34,131,26,0,9,130,115,123,210,159,73,30,119,219,106,166,61,139,13,227,15,211,104,80,36,151,34,51,32,106,130,242,43,56,74,140,0,0,199,140,
  54,2,35,143,17,150,45,67,114,127,93,196,12,246,252,132,177,28,15,65,98,106,187,238,235,208,92,92,117,239,29,31,2,36,40,218,9,153,212,131,
  6,167,170,34,6,152,23,233,47,58,152,66,131,29,137,90,246,179,135,114,197,120,238,179,67,218,61,92,203,77,9,201,102,191,207,126,182,145,181,86,
  10,20,244,17,250,183,120,83,173,213,118,232,82,233,32,221,57,245,130,16,208,150,192,140,46,25,58,145,162,0,98,164,13,54,164,161,76,206,44,240,
  141,111,203,28,234,58,151,31,139,37,91,104,220,176,25,155,210,71,106,12,183,78,57,46,92,133,240,123,246,113,62,109,88,195,113,252,41,162,205,46,
  39,191,150,18,134,68,85,18,217,217,167,94,68,145,116,40,201,8,239,143,220,156,80,25,0,0,184,115,42,22,168,43,206,49,86,188,73,187,28,113,
  168,195,100,142,243,123,19,167,104,224,179,152,130,27,161,96,127,208,119,76,46,136,53,9,104,48,205,159,40,245,6,129,107,58,22,15,18,241,127,162,
  139,117,132,228,90,207,177,49,137,21,150,192,51,208,102,185,54,215,20,249,57,149,254,193,110,12,52,143,47,69,54,76,77,84,60,54,57,193,4,195,
  174,229,169,234,11,124,29,211,19,137,114,15,1,169,12,32,10,154,150,218,135,185,135,45,155,251,14,133,17,116,179,184,239,133,156,23,4,10,198,223,
  14,209,76,57,219,51,239,29,107,18,134,117,136,191,35,31,136,249,35,90,142,242,145,91,58,161,118,109,248,160,74,3,39,112,75,246,92,71,8,9,
  61,160,202,69,116,172,56,240,107,97,10,154,104,230,54,65,84,83,176,226,193,58,83,218,23,49,247,209,201,72,58,245,251,76,168,16,124,66,177,47,
  223,105,162,216,196,152,99,193,252,13,42,247,107,155,116,32,35,9,149,186,187,62,82,120,204,7,228,54,151,151,99,157,203,206,162,79,42,200,179,185,
  140,186,30,3,242,144,194,55,169,147,20,139,219,224,28,159,14,34,226,215,133,152,63,142,201,185,130,21,137,154,2,108,61,170,216,122,199,197,52,196,
  144,239,22,99,99,189,253,222,47,8,196,64,36,60,216,171,244,215,65,35,220,226,61,133,240,225,143,66,204,28,184,9,211,176,60,231,105,26,156,15,
  32,147,15,90,81,203,240,176,231,99,133,57,104,23,197,97,21,96,143,206,5,151,50,135,203,127,147,181,120,121,140,75,132,9,66,217,161,15,103,177,
  11,105,202,197,39,129,81,40,131,4,209,56,117,35,168,198,194,134,220,102,146,24,219,189,19,183,142,170,152,224,202,49,105,109,245,153,231,190,176,123,
  7,145,212,126,102,112,3,3,6,0,98,96,63,104,203,51,52,108,110,134,3,192,56,97,46,155,94,60,68,116,92,48,121,124,166,161,144,223,104,119,
  101,229,202,240,164,1,211,54,49,0,165,136,172,56,233,6,190,134,56,57,187,42,228,52,108,14,142,153,148,248,1,160,55,193,12,86,94,238,251,41,
  152,88,207,197,18,236,174,121,22,226,116,153,85,137,17,136,89,117,95,168,229,168,201,141,18,126,70,114,18,248,238,63,32,14,160,109,120,144,69,58,
  167,101,19,231,138,103,140,10,131,55,158,56,166,174,17,51,202,221,29,107,76,239,21,75,178,67,21,224,200,181,22,11,252,55,0,100,62,21,153,79};
static const u8 W0_NEW[2000] = {
  205,143,27,83,236,92,59,71,226,62,68,148,151,26,239,18,17,206,133,3,147,210,86,144,38,189,32,24,84,82,185,42,228,72,19,58,23,159,157,229,
  132,70,44,191,108,182,90,250,15,206,43,66,25,147,15,9,82,208,234,204,36,144,198,186,176,45,153,57,3,135,252,73,251,224,83,25,95,46,48,231,
  156,248,192,170,35,132,169,128,168,60,28,53,132,132,245,40,119,25,5,80,202,68,251,67,31,15,112,98,36,32,38,249,77,196,34,192,253,81,211,134,
  162,200,249,103,8,201,83,189,139,233,229,175,162,254,217,218,153,50,157,225,57,219,124,50,73,107,241,83,197,152,44,154,249,150,68,224,75,224,243,137,
  66,53,164,97,77,94,134,163,100,80,77,102,205,90,212,124,95,105,217,255,2,246,212,130,33,78,250,242,119,172,199,23,222,225,226,205,205,135,97,255,
  165,161,254,27,102,61,242,252,253,52,209,172,39,146,191,246,187,9,164,78,188,89,140,216,39,135,148,163,90,81,189,196,17,108,207,183,199,205,206,160,
  225,153,5,3,146,172,152,64,242,6,227,111,21,209,35,194,38,97,134,138,240,12,19,206,244,155,74,119,16,196,83,71,243,154,44,149,29,73,88,77,
  184,95,234,248,251,23,94,52,121,81,107,39,177,210,56,173,27,218,155,240,67,206,214,143,184,47,144,17,18,195,175,216,148,190,135,245,70,41,215,95,
  43,44,62,247,129,73,243,184,0,34,82,251,134,222,199,184,97,243,32,108,95,201,113,43,66,71,104,120,246,116,213,80,204,124,122,21,12,225,165,124,
  200,127,66,130,13,62,214,65,133,32,192,28,57,93,41,141,12,56,5,40,99,200,119,112,39,184,255,98,95,3,39,102,229,16,174,175,130,191,251,160,
  179,6,234,232,230,211,219,26,252,75,131,181,124,248,79,112,244,112,9,75,113,86,112,112,164,58,147,152,121,139,68,64,233,162,131,197,242,184,220,176,
  185,123,195,70,54,226,197,116,76,87,122,231,74,13,207,200,107,195,146,193,27,194,159,126,226,39,87,250,215,43,137,179,187,159,240,121,56,116,117,153,
  93,191,8,133,240,41,126,107,246,100,124,173,63,57,178,218,41,145,248,155,27,192,25,111,7,98,120,204,29,141,146,78,117,54,251,53,101,242,172,209,
  253,232,102,70,113,110,252,188,12,247,197,245,70,199,97,27,146,119,58,85,99,228,98,114,222,83,6,18,4,45,121,192,11,193,39,104,176,18,167,59,
  110,206,50,200,54,141,231,106,67,245,168,43,5,222,172,227,222,87,154,102,175,90,90,81,53,167,92,9,80,173,245,174,250,171,90,182,44,165,1,183,
  202,230,181,242,241,24,44,172,207,227,204,145,213,57,25,72,253,200,111,57,234,245,14,161,146,224,196,38,166,210,145,139,193,207,255,197,31,80,249,162,
  229,18,2,240,185,83,24,196,118,24,186,255,135,67,71,242,101,116,112,206,192,87,213,117,70,88,114,113,167,168,21,71,190,126,14,71,56,70,59,205,
  162,182,140,16,149,176,225,166,153,243,64,184,123,22,104,235,40,116,62,43,33,80,87,229,223,232,148,53,159,75,147,232,76,233,156,215,8,7,115,183,
  21,238,7,95,107,148,203,32,158,242,254,22,152,215,41,172,123,244,175,25,127,139,63,197,70,79,48,243,89,145,180,170,116,249,163,110,79,40,7,22,
  154,137,223,151,114,23,226,238,225,231,134,196,244,74,240,152,139,179,95,113,193,137,203,170,209,201,252,200,66,74,186,149,177,12,177,170,26,237,168,170,
  109,116,200,8,20,149,155,220,172,192,16,106,207,33,8,78,138,81,230,92,92,161,93,47,122,113,41,209,25,225,63,151,148,87,64,5,208,131,198,37,
  205,151,242,179,34,217,109,211,131,16,13,254,19,152,185,244,13,201,156,130,60,177,232,108,0,255,68,177,93,224,194,40,181,29,102,142,232,127,153,197,
  43,30,230,88,16,229,74,22,193,47,127,170,34,174,65,35,141,187,175,232,110,22,137,207,160,189,4,9,142,8,140,32,224,221,36,60,204,200,75,69,
  146,137,223,23,234,61,92,31,22,60,249,152,152,196,0,97,142,224,61,116,248,226,82,89,70,92,185,240,46,23,47,0,6,82,16,168,158,82,187,41,
  177,46,16,244,175,127,235,176,143,163,154,85,29,241,53,205,0,17,25,129,9,189,129,65,86,243,84,170,223,163,109,249,173,113,163,199,149,138,106,202,
  96,28,36,13,168,116,242,205,104,234,130,133,143,192,203,191,184,169,81,189,129,35,195,19,248,85,122,135,156,125,156,190,144,227,61,207,159,237,165,6,
  181,5,123,84,164,79,241,155,144,185,224,70,202,83,124,145,110,215,170,237,82,237,186,29,122,9,216,17,91,114,228,117,190,217,126,111,147,72,141,104,
  135,236,181,231,7,203,244,253,99,101,205,34,200,159,50,242,54,207,174,94,172,223,120,106,77,108,38,228,140,155,34,65,85,252,50,172,229,191,17,29,
  209,218,87,130,156,124,189,59,235,215,144,94,0,210,207,125,105,216,35,150,140,115,209,70,19,84,3,66,12,132,170,107,49,58,111,118,112,244,138,67,
  58,158,194,47,146,254,183,130,87,208,88,232,143,208,225,138,192,216,228,64,92,190,80,111,178,189,12,176,90,94,200,254,134,114,121,171,135,53,157,203,
  29,84,107,76,186,72,62,32,237,108,179,255,105,208,253,235,180,227,40,10,149,208,16,120,93,199,222,171,62,97,126,163,204,165,187,213,225,112,54,121,
  74,52,109,18,249,215,238,48,68,50,247,235,106,36,193,102,131,229,169,115,84,157,155,241,22,73,121,225,84,186,153,221,82,233,89,243,143,246,196,227,
  160,176,159,235,128,42,6,254,78,123,228,211,82,55,56,78,221,33,117,173,5,10,82,185,1,67,252,168,147,112,39,12,117,213,146,156,153,194,3,161,
  174,200,75,27,239,255,150,210,228,105,76,31,122,54,135,223,165,220,53,29,177,200,18,45,246,104,123,245,163,75,224,139,67,218,47,244,169,28,45,173,
  233,169,196,16,75,129,125,57,183,70,151,93,218,161,34,27,154,113,173,75,24,212,205,87,241,44,208,220,137,249,6,236,244,72,233,132,2,146,156,112,
  148,192,102,104,131,224,97,152,42,84,226,31,12,2,118,41,44,189,96,73,174,196,255,147,96,3,143,232,61,173,44,42,34,20,93,6,93,159,153,81,
  179,193,225,241,76,139,21,121,31,252,57,237,127,219,54,74,202,98,133,177,132,52,240,209,203,134,229,162,72,86,23,71,23,104,208,77,252,88,219,84,
  148,106,18,235,100,65,55,135,65,27,241,196,179,17,175,55,222,57,161,148,90,224,254,105,103,89,76,73,249,255,152,176,212,88,232,61,198,5,168,114,
  141,157,218,36,42,8,202,187,59,180,243,120,169,223,232,139,18,83,210,67,118,62,199,77,202,74,65,148,239,213,103,14,173,205,254,60,124,192,102,108,
  185,251,11,163,250,41,33,0,210,202,20,125,106,155,12,122,213,93,9,231,172,243,104,153,181,149,66,204,44,156,250,255,35,254,241,21,29,212,169,17,
  97,117,142,246,181,222,178,245,187,225,193,53,173,107,101,145,43,20,242,29,129,174,28,9,140,21,134,31,54,226,196,203,186,77,109,31,251,168,203,37,
  71,108,76,255,151,213,95,162,247,119,63,116,43,116,170,253,66,121,111,77,35,94,205,232,231,92,52,143,234,211,209,186,199,56,6,181,204,119,119,162,
  219,220,102,1,245,124,19,250,34,129,110,181,133,107,160,114,14,56,249,242,111,179,143,234,254,13,168,118,209,98,201,173,163,18,189,168,69,69,84,234,
  118,59,128,241,93,166,246,195,118,91,190,113,142,133,163,89,253,166,142,20,120,108,165,112,70,18,179,22,243,250,235,211,167,59,71,169,79,76,64,190,
  64,169,222,26,68,211,17,93,207,233,228,73,180,143,58,191,215,124,4,247,92,154,255,183,179,213,13,152,204,132,68,48,67,243,231,181,254,231,174,222,
  68,65,131,73,230,181,85,14,15,8,92,124,234,86,60,136,55,242,122,188,183,91,246,117,218,194,122,29,57,209,197,233,203,101,51,162,19,226,44,29,
  188,232,32,70,113,109,200,128,243,86,46,11,214,111,108,65,216,153,115,41,212,213,16,117,77,246,95,250,255,151,254,197,79,18,80,60,24,36,152,226,
  235,77,44,186,157,89,25,175,200,123,234,188,173,64,40,28,62,155,214,245,5,136,9,128,219,133,234,7,21,145,242,175,163,31,251,97,170,184,140,111,
  223,33,34,15,73,38,225,22,202,69,111,163,109,51,152,122,22,253,234,87,137,81,206,153,226,5,210,129,57,136,163,30,210,206,209,203,91,152,248,146,
  172,134,196,106,57,131,83,152,253,47,223,223,43,27,233,50,111,130,20,229,59,63,114,253,162,138,115,124,202,31,138,91,18,174,120,61,173,35,40,243};
