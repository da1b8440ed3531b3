/* the parser of /repo with other compile-time options */
#define INI_ALLOW_BOM 0
#define ini_parse v6_ini_parse
#define ini_parse_file v6_ini_parse_file
#define ini_parse_stream v6_ini_parse_stream
#define ini_parse_string v6_ini_parse_string
#include <../src/ini.c>
