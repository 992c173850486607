#pragma once
#include <RBDyn/rbd_standin.h>
