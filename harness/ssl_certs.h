// Generated with the openssl tool: prime256v1 keys, CAs ca1 and ca2, their leaves, an expired leaf of ca1, and a self-signed one.
#pragma once
#include <stdint.h>
static const uint8_t cert_ca1[] = {
48,130,1,115,48,130,1,25,160,3,2,1,2,2,20,36,156,69,221,119,22,200,9,48,
41,217,197,89,65,11,202,108,99,235,194,48,10,6,8,42,134,72,206,61,4,3,2,48,
14,49,12,48,10,6,3,85,4,3,12,3,99,97,49,48,32,23,13,50,54,49,49,49,
57,48,50,51,52,52,53,90,24,15,50,49,50,54,49,48,50,54,48,50,51,52,52,53,
90,48,14,49,12,48,10,6,3,85,4,3,12,3,99,97,49,48,89,48,19,6,7,42,
134,72,206,61,2,1,6,8,42,134,72,206,61,3,1,7,3,66,0,4,185,73,117,220,
69,58,240,73,94,159,148,164,250,16,125,138,22,115,143,75,252,164,253,150,147,66,242,14,
39,42,143,120,65,54,1,228,183,191,117,0,209,134,247,210,107,191,136,129,14,155,115,212,
228,232,248,92,192,97,32,47,255,124,194,133,163,83,48,81,48,29,6,3,85,29,14,4,
22,4,20,225,81,53,145,220,179,172,112,62,134,168,246,174,114,215,100,100,86,177,216,48,
31,6,3,85,29,35,4,24,48,22,128,20,225,81,53,145,220,179,172,112,62,134,168,246,
174,114,215,100,100,86,177,216,48,15,6,3,85,29,19,1,1,255,4,5,48,3,1,1,
255,48,10,6,8,42,134,72,206,61,4,3,2,3,72,0,48,69,2,33,0,159,185,136,
249,92,163,120,152,235,61,118,186,79,29,221,201,27,82,109,16,79,93,45,84,141,82,180,
159,61,254,216,10,2,32,22,66,4,158,143,164,136,57,74,77,251,11,227,209,112,54,52,
56,192,129,220,61,182,202,175,31,205,241,78,172,12,75,
};
static const uint8_t cert_ca2[] = {
48,130,1,115,48,130,1,25,160,3,2,1,2,2,20,37,131,11,24,173,52,251,71,183,
235,28,173,19,146,178,88,192,62,234,129,48,10,6,8,42,134,72,206,61,4,3,2,48,
14,49,12,48,10,6,3,85,4,3,12,3,99,97,50,48,32,23,13,50,54,49,49,49,
57,48,50,51,52,52,53,90,24,15,50,49,50,54,49,48,50,54,48,50,51,52,52,53,
90,48,14,49,12,48,10,6,3,85,4,3,12,3,99,97,50,48,89,48,19,6,7,42,
134,72,206,61,2,1,6,8,42,134,72,206,61,3,1,7,3,66,0,4,8,254,162,92,
119,73,252,137,99,203,52,12,75,128,198,252,149,217,131,56,116,59,13,255,193,10,146,181,
22,19,163,119,67,5,176,224,202,206,68,121,64,246,108,180,118,192,33,28,182,235,108,24,
251,171,158,23,12,167,196,86,183,153,95,242,163,83,48,81,48,29,6,3,85,29,14,4,
22,4,20,105,203,22,244,166,41,95,119,200,68,105,249,132,108,168,48,204,15,74,76,48,
31,6,3,85,29,35,4,24,48,22,128,20,105,203,22,244,166,41,95,119,200,68,105,249,
132,108,168,48,204,15,74,76,48,15,6,3,85,29,19,1,1,255,4,5,48,3,1,1,
255,48,10,6,8,42,134,72,206,61,4,3,2,3,72,0,48,69,2,33,0,238,177,249,
28,236,112,171,237,12,33,53,89,68,107,132,141,229,114,233,229,243,237,79,232,234,39,170,
18,207,154,217,212,2,32,13,125,34,34,239,107,155,162,243,49,242,57,137,210,57,251,9,
120,146,218,247,139,23,56,110,136,14,189,81,113,227,46,
};
static const uint8_t cert_leaf1[] = {
48,130,1,27,48,129,193,2,20,109,149,221,31,157,153,106,87,50,238,218,31,38,192,43,
127,244,70,189,106,48,10,6,8,42,134,72,206,61,4,3,2,48,14,49,12,48,10,6,
3,85,4,3,12,3,99,97,49,48,32,23,13,50,54,49,49,49,57,48,50,51,52,52,
53,90,24,15,50,49,50,54,49,48,50,54,48,50,51,52,52,53,90,48,16,49,14,48,
12,6,3,85,4,3,12,5,108,101,97,102,49,48,89,48,19,6,7,42,134,72,206,61,
2,1,6,8,42,134,72,206,61,3,1,7,3,66,0,4,188,182,21,147,111,249,35,115,
178,234,90,39,247,255,104,72,194,122,111,193,45,76,188,239,140,34,97,0,74,224,189,72,
160,72,2,177,148,242,131,237,237,219,26,190,29,196,36,40,42,156,213,173,102,11,143,46,
56,141,248,73,73,231,238,79,48,10,6,8,42,134,72,206,61,4,3,2,3,73,0,48,
70,2,33,0,143,147,226,46,223,137,63,131,183,186,34,93,197,88,42,1,241,63,97,212,
45,195,205,109,36,25,3,174,246,169,43,239,2,33,0,135,212,120,249,226,89,165,110,20,
210,128,167,68,74,123,165,188,138,33,6,137,70,133,138,2,214,113,101,247,217,255,44,
};
static const uint8_t cert_leaf2[] = {
48,130,1,26,48,129,193,2,20,89,248,171,20,107,230,69,8,180,39,81,151,180,5,233,
109,223,173,150,45,48,10,6,8,42,134,72,206,61,4,3,2,48,14,49,12,48,10,6,
3,85,4,3,12,3,99,97,50,48,32,23,13,50,54,49,49,49,57,48,50,51,52,52,
53,90,24,15,50,49,50,54,49,48,50,54,48,50,51,52,52,53,90,48,16,49,14,48,
12,6,3,85,4,3,12,5,108,101,97,102,50,48,89,48,19,6,7,42,134,72,206,61,
2,1,6,8,42,134,72,206,61,3,1,7,3,66,0,4,82,52,176,178,221,97,77,57,
183,157,196,99,56,70,31,149,132,1,97,19,159,5,104,177,212,228,222,16,161,248,188,230,
54,156,181,130,219,146,152,39,106,229,78,109,158,175,79,186,74,102,200,254,170,114,117,70,
239,45,144,174,165,239,98,2,48,10,6,8,42,134,72,206,61,4,3,2,3,72,0,48,
69,2,32,9,219,247,207,156,109,230,163,130,57,115,10,248,199,6,94,41,70,102,185,117,
170,11,242,42,48,102,178,195,195,11,236,2,33,0,180,138,60,147,49,97,82,126,7,234,
129,50,42,174,166,19,89,234,99,67,201,104,154,155,166,60,254,6,250,207,114,87,
};
static const uint8_t cert_exp1[] = {
48,130,1,5,48,129,171,2,1,1,48,10,6,8,42,134,72,206,61,4,3,2,48,14,
49,12,48,10,6,3,85,4,3,12,3,99,97,49,48,30,23,13,50,48,48,49,48,49,
48,48,48,48,48,48,90,23,13,50,49,48,49,48,49,48,48,48,48,48,48,90,48,15,
49,13,48,11,6,3,85,4,3,12,4,101,120,112,49,48,89,48,19,6,7,42,134,72,
206,61,2,1,6,8,42,134,72,206,61,3,1,7,3,66,0,4,97,71,136,74,210,120,
200,230,120,188,14,174,64,117,229,135,31,108,67,225,58,103,48,236,223,139,253,248,157,50,
103,186,32,26,172,213,205,121,93,22,117,142,142,94,217,226,159,1,48,66,87,165,160,112,
17,148,134,118,46,196,237,2,70,25,48,10,6,8,42,134,72,206,61,4,3,2,3,73,
0,48,70,2,33,0,229,19,91,229,124,80,10,110,27,113,39,17,166,89,196,147,11,115,
15,189,20,225,54,195,69,125,142,36,47,13,59,119,2,33,0,168,235,217,123,100,141,157,
105,22,203,34,188,175,188,103,240,30,192,96,21,32,148,210,212,253,221,172,68,65,199,174,
106,
};
static const uint8_t cert_self[] = {
48,130,1,117,48,130,1,27,160,3,2,1,2,2,20,2,139,23,72,91,75,200,190,102,
143,185,208,195,52,3,234,213,1,223,107,48,10,6,8,42,134,72,206,61,4,3,2,48,
15,49,13,48,11,6,3,85,4,3,12,4,115,101,108,102,48,32,23,13,50,54,49,49,
49,57,48,50,51,52,52,53,90,24,15,50,49,50,54,49,48,50,54,48,50,51,52,52,
53,90,48,15,49,13,48,11,6,3,85,4,3,12,4,115,101,108,102,48,89,48,19,6,
7,42,134,72,206,61,2,1,6,8,42,134,72,206,61,3,1,7,3,66,0,4,184,184,
54,30,59,113,99,96,43,8,198,110,89,245,203,140,231,227,21,111,207,101,145,127,209,198,
217,113,242,253,142,61,112,201,240,2,186,239,97,226,252,23,246,63,19,170,163,113,234,154,
70,194,148,214,213,250,230,47,13,84,73,13,6,48,163,83,48,81,48,29,6,3,85,29,
14,4,22,4,20,63,181,128,79,113,137,10,50,41,162,154,242,108,162,163,57,90,54,165,
200,48,31,6,3,85,29,35,4,24,48,22,128,20,63,181,128,79,113,137,10,50,41,162,
154,242,108,162,163,57,90,54,165,200,48,15,6,3,85,29,19,1,1,255,4,5,48,3,
1,1,255,48,10,6,8,42,134,72,206,61,4,3,2,3,72,0,48,69,2,32,7,212,
105,172,147,207,60,145,158,48,90,28,180,88,68,162,207,133,70,117,88,9,0,236,239,78,
211,58,209,190,249,24,2,33,0,254,124,150,44,196,154,204,223,113,135,142,67,187,83,198,
133,252,151,175,196,177,24,184,202,106,181,174,128,84,18,151,107,
};
static const uint8_t key_leaf1[] = {
48,119,2,1,1,4,32,8,217,134,5,53,197,156,160,124,147,109,182,154,146,103,171,53,
13,249,218,9,247,92,49,128,190,176,181,250,216,176,85,160,10,6,8,42,134,72,206,61,
3,1,7,161,68,3,66,0,4,188,182,21,147,111,249,35,115,178,234,90,39,247,255,104,
72,194,122,111,193,45,76,188,239,140,34,97,0,74,224,189,72,160,72,2,177,148,242,131,
237,237,219,26,190,29,196,36,40,42,156,213,173,102,11,143,46,56,141,248,73,73,231,238,
79,
};
static const uint8_t key_leaf2[] = {
48,119,2,1,1,4,32,11,236,61,111,159,180,175,88,150,203,209,175,9,37,173,83,82,
60,232,212,31,123,19,236,203,156,119,115,121,249,124,58,160,10,6,8,42,134,72,206,61,
3,1,7,161,68,3,66,0,4,82,52,176,178,221,97,77,57,183,157,196,99,56,70,31,
149,132,1,97,19,159,5,104,177,212,228,222,16,161,248,188,230,54,156,181,130,219,146,152,
39,106,229,78,109,158,175,79,186,74,102,200,254,170,114,117,70,239,45,144,174,165,239,98,
2,
};
static const uint8_t key_exp1[] = {
48,119,2,1,1,4,32,81,128,155,33,247,130,223,154,252,71,62,156,73,181,118,154,38,
231,203,230,230,41,93,178,102,37,239,129,103,199,40,178,160,10,6,8,42,134,72,206,61,
3,1,7,161,68,3,66,0,4,97,71,136,74,210,120,200,230,120,188,14,174,64,117,229,
135,31,108,67,225,58,103,48,236,223,139,253,248,157,50,103,186,32,26,172,213,205,121,93,
22,117,142,142,94,217,226,159,1,48,66,87,165,160,112,17,148,134,118,46,196,237,2,70,
25,
};
static const uint8_t key_self[] = {
48,119,2,1,1,4,32,155,167,228,26,77,171,223,158,227,31,169,82,74,202,36,112,147,
125,35,234,37,185,135,42,11,25,53,70,210,205,69,221,160,10,6,8,42,134,72,206,61,
3,1,7,161,68,3,66,0,4,184,184,54,30,59,113,99,96,43,8,198,110,89,245,203,
140,231,227,21,111,207,101,145,127,209,198,217,113,242,253,142,61,112,201,240,2,186,239,97,
226,252,23,246,63,19,170,163,113,234,154,70,194,148,214,213,250,230,47,13,84,73,13,6,
48,
};
static const uint8_t cert_rsa[] = {
48,130,2,255,48,130,1,231,160,3,2,1,2,2,20,39,222,92,52,97,57,38,250,200,
46,73,208,122,252,217,75,65,6,179,134,48,13,6,9,42,134,72,134,247,13,1,1,11,
5,0,48,14,49,12,48,10,6,3,85,4,3,12,3,114,115,97,48,32,23,13,50,54,
49,49,49,57,48,51,48,49,49,52,90,24,15,50,49,50,54,49,48,50,54,48,51,48,
49,49,52,90,48,14,49,12,48,10,6,3,85,4,3,12,3,114,115,97,48,130,1,34,
48,13,6,9,42,134,72,134,247,13,1,1,1,5,0,3,130,1,15,0,48,130,1,10,
2,130,1,1,0,141,216,202,76,125,102,214,214,231,13,194,47,199,108,10,18,6,83,121,
207,228,198,192,82,31,188,207,59,70,64,73,175,200,173,97,47,52,212,175,62,117,202,108,
32,187,101,82,38,198,162,240,227,145,149,25,145,41,88,22,102,187,30,176,145,99,171,220,
60,43,81,152,51,95,110,194,117,158,15,199,171,108,202,231,150,43,245,244,32,228,172,55,
81,26,73,151,234,127,44,82,27,11,9,23,36,161,180,105,171,159,143,26,10,251,152,30,
163,253,184,113,252,116,217,115,22,107,208,97,52,240,204,104,141,93,29,70,35,35,17,201,
26,157,107,101,196,89,242,139,20,205,82,248,24,174,181,237,18,137,103,253,103,188,14,159,
95,240,82,8,11,44,149,112,37,166,41,143,252,104,38,164,26,74,21,32,146,48,32,117,
165,191,50,73,149,17,7,107,28,189,37,239,194,44,91,26,208,130,220,100,81,115,241,95,
168,170,126,23,123,45,190,133,132,185,126,246,255,149,161,239,35,20,82,207,115,95,178,122,
98,56,198,255,192,2,221,115,26,168,212,179,32,98,17,152,61,246,172,215,123,2,3,1,
0,1,163,83,48,81,48,29,6,3,85,29,14,4,22,4,20,174,185,167,200,82,131,218,
114,145,41,109,246,216,254,72,49,138,104,157,124,48,31,6,3,85,29,35,4,24,48,22,
128,20,174,185,167,200,82,131,218,114,145,41,109,246,216,254,72,49,138,104,157,124,48,15,
6,3,85,29,19,1,1,255,4,5,48,3,1,1,255,48,13,6,9,42,134,72,134,247,
13,1,1,11,5,0,3,130,1,1,0,89,120,232,213,130,133,170,89,158,245,77,185,218,
129,251,255,159,215,199,54,138,31,114,67,118,200,57,19,136,223,233,58,81,30,62,245,247,
72,152,104,16,69,84,76,3,191,156,173,19,26,212,186,6,48,18,104,158,180,153,71,163,
227,253,46,153,85,242,23,225,248,40,107,155,10,152,173,104,213,71,66,190,156,138,143,216,
27,235,16,226,246,214,154,142,166,212,253,164,138,246,228,38,101,31,169,193,155,37,59,145,
174,148,96,20,242,128,140,233,195,106,107,135,43,89,186,46,44,182,221,77,165,117,235,176,
41,187,70,31,26,208,105,106,161,40,155,153,110,251,165,210,68,169,214,190,246,5,234,133,
128,79,102,196,55,171,117,198,86,233,191,169,107,138,105,209,58,165,36,209,113,80,54,199,
238,232,249,85,27,199,167,24,1,13,161,122,148,198,128,164,122,133,133,62,187,49,249,222,
169,214,59,18,84,65,130,135,27,86,244,210,182,47,40,252,68,41,76,141,29,170,21,135,
223,59,123,238,197,78,237,32,92,3,100,37,108,18,16,248,162,149,70,71,191,158,164,46,
183,62,187,
};
static const uint8_t key_rsa[] = {
48,130,4,163,2,1,0,2,130,1,1,0,141,216,202,76,125,102,214,214,231,13,194,47,
199,108,10,18,6,83,121,207,228,198,192,82,31,188,207,59,70,64,73,175,200,173,97,47,
52,212,175,62,117,202,108,32,187,101,82,38,198,162,240,227,145,149,25,145,41,88,22,102,
187,30,176,145,99,171,220,60,43,81,152,51,95,110,194,117,158,15,199,171,108,202,231,150,
43,245,244,32,228,172,55,81,26,73,151,234,127,44,82,27,11,9,23,36,161,180,105,171,
159,143,26,10,251,152,30,163,253,184,113,252,116,217,115,22,107,208,97,52,240,204,104,141,
93,29,70,35,35,17,201,26,157,107,101,196,89,242,139,20,205,82,248,24,174,181,237,18,
137,103,253,103,188,14,159,95,240,82,8,11,44,149,112,37,166,41,143,252,104,38,164,26,
74,21,32,146,48,32,117,165,191,50,73,149,17,7,107,28,189,37,239,194,44,91,26,208,
130,220,100,81,115,241,95,168,170,126,23,123,45,190,133,132,185,126,246,255,149,161,239,35,
20,82,207,115,95,178,122,98,56,198,255,192,2,221,115,26,168,212,179,32,98,17,152,61,
246,172,215,123,2,3,1,0,1,2,130,1,0,23,57,215,46,29,30,120,177,41,150,36,
36,196,167,153,34,136,108,164,182,120,196,94,123,83,253,11,133,174,36,26,172,176,212,74,
228,122,231,20,102,202,204,193,85,190,185,129,113,29,247,82,48,65,7,67,239,115,240,155,
130,104,195,70,176,23,188,237,75,224,223,244,102,253,10,90,198,253,129,161,245,28,212,64,
133,99,95,91,129,3,80,123,162,73,6,161,220,96,196,118,17,61,134,88,134,195,255,145,
137,235,143,119,249,50,103,31,37,69,7,45,138,227,235,51,32,9,185,78,33,41,141,187,
37,241,38,70,147,43,105,210,45,98,48,201,39,79,151,255,25,161,132,147,92,16,153,45,
147,4,234,235,133,173,176,117,26,120,14,83,137,233,67,11,149,212,58,105,3,174,53,5,
150,122,46,240,69,174,215,208,5,92,69,65,13,169,149,246,40,199,134,70,184,19,131,113,
196,68,229,179,192,239,13,163,198,31,124,123,139,130,188,87,128,111,33,56,180,133,213,59,
160,184,47,220,132,24,42,244,84,19,214,101,20,150,209,137,205,196,252,184,117,225,102,148,
9,235,209,73,249,2,129,129,0,200,33,39,105,157,17,35,216,103,135,159,12,27,230,111,
53,166,167,227,99,89,55,163,133,12,96,167,20,166,224,185,243,200,133,62,122,201,153,118,
192,159,203,192,14,162,205,175,23,172,75,23,249,161,149,114,47,240,8,28,169,32,185,141,
132,116,96,177,197,70,133,23,132,64,0,144,111,204,2,44,151,14,125,161,218,66,64,1,
51,203,103,82,73,75,215,189,79,65,182,41,36,109,20,44,163,250,231,177,114,84,62,246,
38,55,174,99,69,244,132,198,131,219,139,9,173,142,97,185,157,2,129,129,0,181,114,75,
12,56,144,53,63,53,217,169,162,97,152,138,112,110,215,81,106,27,231,224,42,219,234,125,
66,251,251,251,33,121,197,146,138,157,13,92,162,149,114,218,240,64,90,112,251,118,162,94,
128,181,88,231,116,231,50,5,32,223,149,139,139,37,66,167,86,34,142,217,243,124,147,73,
157,129,246,206,62,187,20,247,23,41,130,166,21,108,56,119,192,147,255,139,109,10,109,22,
32,234,68,57,179,125,86,194,193,241,29,188,145,218,29,94,158,203,100,171,28,175,17,240,
13,88,102,117,247,2,129,128,42,212,189,164,162,210,234,67,4,85,72,58,197,53,218,19,
55,105,179,6,174,47,116,53,163,98,132,31,173,95,103,44,191,123,148,213,158,147,211,144,
130,34,143,38,18,189,198,125,96,136,105,199,41,71,220,186,89,186,194,183,135,163,110,160,
44,112,13,91,213,45,226,204,145,14,13,219,127,99,239,187,28,132,210,192,237,112,217,81,
6,117,68,109,31,104,58,193,221,164,104,197,188,250,150,91,57,245,160,74,129,177,63,233,
9,253,174,141,104,57,138,106,233,239,165,208,153,42,93,25,2,129,129,0,129,129,41,255,
118,255,182,129,127,53,243,213,106,67,45,204,65,208,124,211,119,71,112,192,38,102,159,49,
8,25,57,141,19,20,233,26,246,45,107,72,191,210,82,97,216,12,181,71,69,205,110,21,
255,89,141,25,235,73,208,79,62,69,198,107,114,20,184,202,201,175,155,240,37,162,26,144,
201,10,22,250,191,28,159,159,112,137,71,113,82,228,154,212,96,205,171,254,15,202,252,88,
81,220,144,50,131,235,64,230,155,233,213,133,100,96,66,0,164,187,29,70,67,206,81,191,
180,176,172,209,2,129,128,53,228,151,59,196,86,232,254,248,223,211,31,86,104,21,190,89,
186,14,32,214,156,246,30,61,181,70,126,248,254,202,164,149,35,92,143,59,54,34,4,2,
232,97,130,121,27,156,232,192,24,113,8,170,166,197,126,220,9,37,89,77,2,143,68,250,
152,118,107,109,85,57,201,51,207,17,145,188,241,50,71,157,31,186,52,81,200,99,17,40,
159,133,155,96,13,82,107,66,140,87,250,135,226,13,130,8,82,194,129,23,174,40,5,59,
26,23,255,133,56,119,213,118,197,69,128,96,40,249,244,
};
