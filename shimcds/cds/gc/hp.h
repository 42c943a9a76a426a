#include <cds/init.h>
