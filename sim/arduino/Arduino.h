// The Arduino core as the sketches of /repo/examples use it; every call goes to the simulator.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#define LOW 0
#define HIGH 1
#define INPUT 0
#define OUTPUT 1
#define INPUT_PULLUP 2
#define LED_BUILTIN 13
#define SERIAL_8N1 6
typedef bool boolean;
typedef uint8_t byte;
extern "C" {
int sim_serial_available(void);
int sim_serial_read(void);
size_t sim_serial_write(uint8_t c);
void sim_serial_begin(unsigned long baud);
void sim_pin_mode(int pin, int mode);
void sim_pin_write(int pin, int value);
int sim_pin_read(int pin);
unsigned long sim_millis(void);
}
struct SimSerial {
    void begin(unsigned long baud, int = SERIAL_8N1) { sim_serial_begin(baud); }
    int available() { return sim_serial_available(); }
    int read() { return sim_serial_read(); }
    size_t write(uint8_t c) { return sim_serial_write(c); }
    void flush() {}
    operator bool() { return true; }
};
static SimSerial Serial __attribute__((unused));
static inline void pinMode(uint8_t pin, uint8_t mode) { sim_pin_mode(pin, mode); }
static inline void digitalWrite(uint8_t pin, uint8_t value) { sim_pin_write(pin, value); }
static inline int digitalRead(uint8_t pin) { return sim_pin_read(pin); }
static inline unsigned long millis() { return sim_millis(); }
static inline unsigned long micros() { return sim_millis() * 1000; }
static inline void delay(unsigned long) {}
static inline void yield() {}
