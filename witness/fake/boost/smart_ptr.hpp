#include <vpthread.h>
