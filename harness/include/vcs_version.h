#define DAV1D_VERSION "verif"
