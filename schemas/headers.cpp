// Parsed with the sources of libjoedb: header-only parts that no .cpp file of src/joedb includes.
#include "joedb/rpc/Server.h"
#include "joedb/journal/File_Slice.h"
#include "joedb/journal/Upgradable_File.h"
#include "joedb/error/File_Logger.h"
#include "joedb/error/Multi_Logger.h"
#include "joedb/error/System_Logger.h"
