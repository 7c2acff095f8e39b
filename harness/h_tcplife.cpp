#include "tcp_life.h"
