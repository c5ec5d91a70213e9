#pragma once
namespace sm { struct null_deleter { void operator()(const void*) const {} }; }
