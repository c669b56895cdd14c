// S05: HTTP requests over a connection.
#include "http.h"
SCENARIO(S05) { http_body<fr::HttpRequest>(); }
