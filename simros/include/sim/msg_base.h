#ifndef SIM_MSG_BASE_H
#define SIM_MSG_BASE_H
#include <cstring>
#include <map>
#include <ostream>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <ros/time.h>
#include <ros/serialization.h>
#endif
