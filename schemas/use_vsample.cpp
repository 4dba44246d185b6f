// Instantiates what joedbc generates, so that the front end type-checks and
// resolves every generated function.  Never compiled into a program or run.
#include "vsample/writable.h"
#include "vsample/readonly.h"
#include "vsample/Multiplexer.h"
#include "vsample/File_Client.h"
#include "vsample/File_Database.h"
#include "vsample/Memory_Database.h"
#include "vsample/Readonly_Client.h"
#include "vsample/Readonly_Database.h"
#include "vsample/Interpreted_File_Database.h"
#include "vsample/Readonly_Interpreted_File_Database.h"
#include "vsample/print_table.h"
#include "vsample/rpc/Service.h"
#include "vsample/rpc/Procedures.h"
#include "vsample/rpc/Client.h"

void use_vectors(vsample::Writable_Database &db)
{
 db.update_vector_of_name(vsample::id_of_city(0), 1, [](joedb::Span<std::string>){});
 db.update_vector_of_first_name(vsample::id_of_person(0), 1, [](joedb::Span<std::string>){});
 db.update_vector_of_last_name(vsample::id_of_person(0), 1, [](joedb::Span<std::string>){});
 db.update_vector_of_age(vsample::id_of_person(0), 1, [](joedb::Span<int16_t>){});
 db.update_vector_of_home(vsample::id_of_person(0), 1, [](joedb::Span<vsample::id_of_city>){});
 db.update_vector_of_f_int8(vsample::id_of_anything(0), 1, [](joedb::Span<int8_t>){});
 db.update_vector_of_f_int16(vsample::id_of_anything(0), 1, [](joedb::Span<int16_t>){});
 db.update_vector_of_f_int32(vsample::id_of_anything(0), 1, [](joedb::Span<int32_t>){});
 db.update_vector_of_f_int64(vsample::id_of_anything(0), 1, [](joedb::Span<int64_t>){});
 db.update_vector_of_f_float32(vsample::id_of_anything(0), 1, [](joedb::Span<float>){});
 db.update_vector_of_f_float64(vsample::id_of_anything(0), 1, [](joedb::Span<double>){});
 db.update_vector_of_f_boolean(vsample::id_of_anything(0), 1, [](auto){});
 db.update_vector_of_f_string(vsample::id_of_anything(0), 1, [](joedb::Span<std::string>){});
 db.update_vector_of_f_blob(vsample::id_of_anything(0), 1, [](joedb::Span<joedb::Blob>){});
 db.update_vector_of_f_ref(vsample::id_of_anything(0), 1, [](joedb::Span<vsample::id_of_city>){});
}
