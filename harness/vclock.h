#pragma once
long long vclock_now_ms();
void vclock_begin(long long ms);
bool vclock_done();
bool vclock_inflight();	// data or ends of connections under way between sockets of this process
void vclock_end();
void vclock_settle(long long us);
