#pragma once
struct module_api {
    long (*id)(int);
    bool (*meta)(int, char*, long*, long*);
    bool (*make)(co_ecs::registry&, int, int);
    int (*view)(co_ecs::registry&, int, int*, int);
    int (*captured)(int*, long*, int);
};
