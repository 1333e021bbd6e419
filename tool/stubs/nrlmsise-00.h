/* Minimal declarations of the NRLMSISE-00 API; parse-only (never linked). */
#ifndef VERIF_NRLMSISE_STUB
#define VERIF_NRLMSISE_STUB
struct nrlmsise_flags { int switches[24]; double sw[24]; double swc[24]; };
struct ap_array { double a[7]; };
struct nrlmsise_input { int year; int doy; double sec; double alt; double g_lat; double g_long; double lst; double f107A; double f107; double ap; struct ap_array* ap_a; };
struct nrlmsise_output { double d[9]; double t[2]; };
void gtd7(struct nrlmsise_input*, struct nrlmsise_flags*, struct nrlmsise_output*);
void gtd7d(struct nrlmsise_input*, struct nrlmsise_flags*, struct nrlmsise_output*);
#endif
