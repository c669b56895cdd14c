// S06: HTTP responses over a connection.
#include "http.h"
SCENARIO(S06) { http_body<fr::HttpResponse>(); }
