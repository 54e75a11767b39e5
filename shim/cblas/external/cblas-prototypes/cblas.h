#include <cblas.h>  // apt: libopenblas-dev; stands in for the empty submodule external/cblas-prototypes
