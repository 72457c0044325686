// Put before the drivers of the Clang build of the containers: these headers
// rely on names that they themselves do not declare.
#include <stddef.h>
namespace nanostl { typedef decltype(nullptr) nullptr_t; }
