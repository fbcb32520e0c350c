/* forced into every instrumented source */
#ifndef VSCHED_PRE_H
#define VSCHED_PRE_H
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <pthread.h>
#ifdef __cplusplus
#include <cstdlib>
#include <cstring>
extern "C" {
#endif
void *vs_malloc(size_t);
void *vs_calloc(size_t,size_t);
void *vs_realloc(void*,size_t);
char *vs_strdup(const char*);
void vs_free(void*);
void *vs_memcpy(void*,const void*,size_t);
void *vs_memmove(void*,const void*,size_t);
void *vs_memset(void*,int,size_t);
int vs_mutex_lock(pthread_mutex_t*);
int vs_mutex_trylock(pthread_mutex_t*);
int vs_mutex_unlock(pthread_mutex_t*);
int vs_mutex_init(pthread_mutex_t*,const pthread_mutexattr_t*);
int vs_mutex_destroy(pthread_mutex_t*);
int vs_cond_init(pthread_cond_t*,const pthread_condattr_t*);
int vs_cond_destroy(pthread_cond_t*);
int vs_cond_wait(pthread_cond_t*,pthread_mutex_t*);
int vs_cond_timedwait(pthread_cond_t*,pthread_mutex_t*,const struct timespec*);
int vs_cond_signal(pthread_cond_t*);
int vs_cond_broadcast(pthread_cond_t*);
int vs_once(pthread_once_t*,void(*)(void));
int vs_key_create(pthread_key_t*,void(*)(void*));
int vs_key_delete(pthread_key_t);
void *vs_getspecific(pthread_key_t);
int vs_setspecific(pthread_key_t,const void*);
int vs_thread_create(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*);
int vs_thread_join(pthread_t,void**);
int vs_thread_detach(pthread_t);
pthread_t vs_thread_self(void);
#ifdef __cplusplus
}
#endif
#define malloc vs_malloc
#define calloc vs_calloc
#define realloc vs_realloc
#define strdup vs_strdup
#define free vs_free
#define memcpy vs_memcpy
#define memmove vs_memmove
#define memset vs_memset
#define pthread_mutex_lock vs_mutex_lock
#define pthread_mutex_trylock vs_mutex_trylock
#define pthread_mutex_unlock vs_mutex_unlock
#define pthread_mutex_init vs_mutex_init
#define pthread_mutex_destroy vs_mutex_destroy
#define pthread_cond_init vs_cond_init
#define pthread_cond_destroy vs_cond_destroy
#define pthread_cond_wait vs_cond_wait
#define pthread_cond_timedwait vs_cond_timedwait
#define pthread_cond_signal vs_cond_signal
#define pthread_cond_broadcast vs_cond_broadcast
#define pthread_once vs_once
#define pthread_key_create vs_key_create
#define pthread_key_delete vs_key_delete
#define pthread_getspecific vs_getspecific
#define pthread_setspecific vs_setspecific
#define pthread_create vs_thread_create
#define pthread_join vs_thread_join
#define pthread_detach vs_thread_detach
#define pthread_self vs_thread_self
/* statics of instrumented code go to sections the scheduler restores before
 * every execution */
#pragma clang section bss="vsbss" data="vsdata"
#endif
