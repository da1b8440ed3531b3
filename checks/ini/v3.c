/* the parser of /repo with other compile-time options */
#define INI_STOP_ON_FIRST_ERROR 1
#define ini_parse v3_ini_parse
#define ini_parse_file v3_ini_parse_file
#define ini_parse_stream v3_ini_parse_stream
#define ini_parse_string v3_ini_parse_string
#include <../src/ini.c>
