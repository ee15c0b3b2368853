/* Version compatibility, for every library version (the three numbers CMake
 * substitutes into version.c.in are arbitrary here) and every request. */
#include "vp.h"
static uint8_t vp_major, vp_minor, vp_patch;
#define VP_VERSION_MAJOR vp_major
#define VP_VERSION_MINOR vp_minor
#define VP_VERSION_PATCH vp_patch
#include "version.c"

void h_version(void) {
    vp_major = vp_u8(); vp_minor = vp_u8(); vp_patch = vp_u8();
    passgen_version v = {.major = vp_u8(), .minor = vp_u8(), .patch = vp_u8()};
    passgen_version lib = passgen_version_get();
    vp_assert(lib.major == vp_major && lib.minor == vp_minor && lib.patch == vp_patch, "the library's version is the configured one");
    bool want = v.major == vp_major && (v.minor < vp_minor || (v.minor == vp_minor && v.patch <= vp_patch));
    vp_assert(passgen_version_compatible(v) == want, "compatible exactly when the major numbers are equal and minor and patch do not exceed the library's");
    if(want) vp_reach("compatible");
    else vp_reach("incompatible");
}
