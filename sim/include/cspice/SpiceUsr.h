/* Declarations of the CSPICE entry points huira calls, for builds against the
 * simulated CSPICE in sim/simspice.cpp.  CSPICE itself is not installed in this
 * sandbox.  Types and signatures follow the public NAIF N0067 headers. */
#ifndef HUIRA_SIM_SPICEUSR_H
#define HUIRA_SIM_SPICEUSR_H
typedef char SpiceChar;
typedef double SpiceDouble;
typedef int SpiceInt;
typedef int SpiceBoolean;
typedef const char ConstSpiceChar;
typedef const double ConstSpiceDouble;
#define SPICETRUE 1
#define SPICEFALSE 0
#ifdef __cplusplus
extern "C" {
#endif
void erract_c(ConstSpiceChar* op, SpiceInt lenout, SpiceChar* action);
void errprt_c(ConstSpiceChar* op, SpiceInt lenout, SpiceChar* list);
SpiceBoolean failed_c(void);
void reset_c(void);
void getmsg_c(ConstSpiceChar* option, SpiceInt lenout, SpiceChar* msg);
void furnsh_c(ConstSpiceChar* file);
void unload_c(ConstSpiceChar* file);
void kclear_c(void);
void str2et_c(ConstSpiceChar* str, SpiceDouble* et);
void deltet_c(SpiceDouble epoch, ConstSpiceChar* eptype, SpiceDouble* delta);
SpiceDouble unitim_c(SpiceDouble epoch, ConstSpiceChar* insys, ConstSpiceChar* outsys);
void timout_c(SpiceDouble et, ConstSpiceChar* pictur, SpiceInt lenout, SpiceChar* output);
void spkezr_c(ConstSpiceChar* target, SpiceDouble et, ConstSpiceChar* ref, ConstSpiceChar* abcorr,
              ConstSpiceChar* obs, SpiceDouble starg[6], SpiceDouble* lt);
void pxform_c(ConstSpiceChar* from, ConstSpiceChar* to, SpiceDouble et, SpiceDouble rotate[3][3]);
void sxform_c(ConstSpiceChar* from, ConstSpiceChar* to, SpiceDouble et, SpiceDouble xform[6][6]);
void xf2rav_c(ConstSpiceDouble xform[6][6], SpiceDouble rot[3][3], SpiceDouble av[3]);
void conics_c(ConstSpiceDouble elts[8], SpiceDouble et, SpiceDouble state[6]);
#ifdef __cplusplus
}
#endif
#endif
