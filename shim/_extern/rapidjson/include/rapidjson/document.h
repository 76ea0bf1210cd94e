#include </usr/include/rapidjson/document.h>
