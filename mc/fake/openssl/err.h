#ifndef MC_FAKE_ERR_H
#define MC_FAKE_ERR_H
void ERR_remove_thread_state( const void *tid );
#endif
