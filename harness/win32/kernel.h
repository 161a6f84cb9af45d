// Harness-side view of the simulated Windows kernel.
#pragma once
#include "../common.h"
namespace k32
{
    using namespace sim;
    int add_file(const char16_t* name, size_t name_len, const std::string& head, u64 size);     // contents: head, then zeros
    void resize_file(int id, u64 size);
    struct View { const u8* data; u64 size; int file; int owner; bool live; };
    int handles_of(int fiber); // handles (files and mappings) opened by this fiber and still open
    int views_of(int fiber);
    int handles(); int views();
    bool view_at(const void* p, View& v);
    bool handle_open(const void* h);
    u64 failures_of(int fiber); // calls that failed on the fiber so far, injected or not
    u64 injected_of(int fiber);
    u64 misuse();   // calls with handles or addresses that were not open
}
