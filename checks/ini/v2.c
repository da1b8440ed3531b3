/* the parser of /repo with other compile-time options */
#define INI_ALLOW_INLINE_COMMENTS 0
#define ini_parse v2_ini_parse
#define ini_parse_file v2_ini_parse_file
#define ini_parse_stream v2_ini_parse_stream
#define ini_parse_string v2_ini_parse_string
#include <../src/ini.c>
