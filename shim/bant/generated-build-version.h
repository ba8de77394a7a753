#define BANT_BUILD_VERSION "static"
