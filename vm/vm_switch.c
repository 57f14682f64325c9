/* the interpreter without computed gotos: system headers first, then hide __GNUC__ */
#include <stdarg.h>
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <math.h>
#undef __GNUC__
#include VM_C
