#ifndef vsample_rpc_Service_declared
#define vsample_rpc_Service_declared

#include "vsample/Client.h"
#include "vsample/rpc/message/Writable_Database.h"

namespace vsample::rpc
{
 class Service
 {
  private:
   Client &client;

  public:
   Service(Client &client): client(client) {}

   void first(message::Writable_Database &message)
   {
    for (const auto data: message.get_data_table())
     message.set_city(data, client.get_database().find_city_by_name(message.get_city_name(data)));
   }

   void second(vsample::Writable_Database &message)
   {
    message.new_city("x");
   }
 };
}

#endif
