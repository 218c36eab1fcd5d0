/* Glue for commands with a processing callback. Kept apart: the rest of the simulator works without it. */
#include <microshell.h>
#include <inc/ush_internal.h>

static ush_state_t state_of(int next)
{
        return next == 0 ? USH_STATE_PROCESS_SERVICE : next == 1 ? USH_STATE_PROCESS_FINISH : USH_STATE_RESET_PROMPT;
}
void shim_proc_fill(void *where, size_t index, void *process) { ((struct ush_file_descriptor *)where)[index].process = (ush_file_process_service)process; }
void shim_proc_start(struct ush_object *self, const void *table, size_t index) { ush_process_start(self, (const struct ush_file_descriptor *)table + index); }
int shim_proc_state(struct ush_object *self)
{
        return self->state == USH_STATE_PROCESS_START ? 0 : self->state == USH_STATE_PROCESS_SERVICE ? 1 : self->state == USH_STATE_PROCESS_FINISH ? 2 : 3;
}
void shim_proc_write(struct ush_object *self, char *text, int next) { ush_write_pointer(self, text, state_of(next)); }
void shim_proc_write_bin(struct ush_object *self, uint8_t *data, size_t size, int next) { ush_write_pointer_bin(self, data, size, state_of(next)); }
void shim_proc_goto(struct ush_object *self, int next) { self->state = state_of(next); }
/* the fields a processing callback may use */
static struct ush_node_object places[7];
void shim_proc_put(struct ush_object *self, size_t v)
{
        self->process_index = v;
        self->process_index_item = v * 3 + 1;
        self->process_data = (uint8_t *)self + v % 7;
        self->process_data_size = v * 5 + 2;
        self->process_stage = (int)(v * 7 + 3);
    self->process_node = &places[v % 7];
    self->process_child_node = &places[v * 3 % 7];
}
bool shim_proc_same(struct ush_object *self, size_t v)
{
        return self->process_index == v && self->process_index_item == v * 3 + 1 && self->process_data == (uint8_t *)self + v % 7 &&
               self->process_data_size == v * 5 + 2 && self->process_stage == (int)(v * 7 + 3) &&
               self->process_node == &places[v % 7] && self->process_child_node == &places[v * 3 % 7];
}
