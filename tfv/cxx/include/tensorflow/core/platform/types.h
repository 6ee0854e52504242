#include "tfv_tf.h"
