#include "ros_stub.h"
