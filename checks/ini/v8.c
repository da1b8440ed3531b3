/* the parser of /repo with other compile-time options */
#define INI_INLINE_COMMENT_PREFIXES ";#"
#define ini_parse v8_ini_parse
#define ini_parse_file v8_ini_parse_file
#define ini_parse_stream v8_ini_parse_stream
#define ini_parse_string v8_ini_parse_string
#include <../src/ini.c>
