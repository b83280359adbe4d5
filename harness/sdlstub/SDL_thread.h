#pragma once
typedef struct SDL_Thread SDL_Thread;
SDL_Thread *SDL_CreateThread(int (*fn)(void *), const char *name, void *data);
void SDL_WaitThread(SDL_Thread *thread, int *status);
