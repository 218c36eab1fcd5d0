void setup();
void loop();
extern "C" void sketch_open(void) {}
extern "C" void sketch_init(void) { setup(); }
extern "C" bool sketch_service(void) { loop(); return true; }
