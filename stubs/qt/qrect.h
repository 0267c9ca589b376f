#include "qt_stub.h"
