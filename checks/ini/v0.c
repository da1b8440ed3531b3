/* the parser of /repo with other compile-time options */
#define ini_parse v0_ini_parse
#define ini_parse_file v0_ini_parse_file
#define ini_parse_stream v0_ini_parse_stream
#define ini_parse_string v0_ini_parse_string
#include <../src/ini.c>
