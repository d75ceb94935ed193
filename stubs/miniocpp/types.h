#include "client.h"
