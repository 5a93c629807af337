// Minimal stand-in for the FleCSI declarations the flecsph headers name.
#pragma once
namespace flecsi { namespace data { class data_client_t { public: virtual ~data_client_t(){} }; } }
