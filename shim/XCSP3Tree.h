#include <XCSP3CoreParser.h>
