/* the parser of /repo with other compile-time options */
#define INI_MAX_LINE 8
#define ini_parse v5_ini_parse
#define ini_parse_file v5_ini_parse_file
#define ini_parse_stream v5_ini_parse_stream
#define ini_parse_string v5_ini_parse_string
#include <../src/ini.c>
