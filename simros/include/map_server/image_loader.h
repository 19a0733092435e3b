// map_server::loadMapFromFile for binary and ASCII PGM images (the only kind the simulated files have).
#ifndef SIM_MAP_SERVER_IMAGE_LOADER_H
#define SIM_MAP_SERVER_IMAGE_LOADER_H
#include <nav_msgs/GetMap.h>
enum MapMode { TRINARY, SCALE, RAW };
namespace map_server
{
void loadMapFromFile(nav_msgs::GetMap::Response* resp, const char* fname, double res, bool negate, double occ_th, double free_th, double* origin, MapMode mode = TRINARY);
}
#endif
