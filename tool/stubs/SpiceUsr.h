/* Minimal declarations of the CSPICE API used by s2e-core; parse-only (never linked). */
#ifndef VERIF_SPICE_STUB
#define VERIF_SPICE_STUB
typedef double SpiceDouble; typedef int SpiceInt; typedef int SpiceBoolean; typedef char SpiceChar;
typedef const char ConstSpiceChar; typedef const double ConstSpiceDouble; typedef const int ConstSpiceInt;
#define SPICETRUE 1
#define SPICEFALSE 0
extern "C" {
void str2et_c(ConstSpiceChar*, SpiceDouble*);
void bodvcd_c(SpiceInt, ConstSpiceChar*, SpiceInt, SpiceInt*, SpiceDouble*);
void bodvrd_c(ConstSpiceChar*, ConstSpiceChar*, SpiceInt, SpiceInt*, SpiceDouble*);
void bodc2n_c(SpiceInt, SpiceInt, SpiceChar*, SpiceBoolean*);
void bodn2c_c(ConstSpiceChar*, SpiceInt*, SpiceBoolean*);
void spkezr_c(ConstSpiceChar*, SpiceDouble, ConstSpiceChar*, ConstSpiceChar*, ConstSpiceChar*, SpiceDouble*, SpiceDouble*);
void spkpos_c(ConstSpiceChar*, SpiceDouble, ConstSpiceChar*, ConstSpiceChar*, ConstSpiceChar*, SpiceDouble*, SpiceDouble*);
void furnsh_c(ConstSpiceChar*);
void unload_c(ConstSpiceChar*);
void sxform_c(ConstSpiceChar*, ConstSpiceChar*, SpiceDouble, SpiceDouble (*)[6]);
void pxform_c(ConstSpiceChar*, ConstSpiceChar*, SpiceDouble, SpiceDouble (*)[3]);
void timout_c(SpiceDouble, ConstSpiceChar*, SpiceInt, SpiceChar*);
}
#endif
