/* File functions of the library are called by a program with decimal commas in some cases (G_foreign). */
#ifndef VERIF_FOREIGN_HPP
#define VERIF_FOREIGN_HPP
#include "common.hpp"
#define read_sequence_par(...) foreign_call([&] { return read_sequence_par(__VA_ARGS__); })
#define read_track_par(...) foreign_call([&] { return read_track_par(__VA_ARGS__); })
#define read_volume_par(...) foreign_call([&] { return read_volume_par(__VA_ARGS__); })
#define read_control_par(...) foreign_call([&] { return read_control_par(__VA_ARGS__); })
#define read_target_par(...) foreign_call([&] { return read_target_par(__VA_ARGS__); })
#define write_target_par(...) foreign_call([&] { return write_target_par(__VA_ARGS__); })
#define read_calibration(...) foreign_call([&] { return read_calibration(__VA_ARGS__); })
#define read_ori(...) foreign_call([&] { return read_ori(__VA_ARGS__); })
#define write_calibration(...) foreign_call([&] { return write_calibration(__VA_ARGS__); })
#define write_ori(...) foreign_call([&] { return write_ori(__VA_ARGS__); })
#define read_orient_par(...) foreign_call([&] { return read_orient_par(__VA_ARGS__); })
#define read_sortgrid_par(...) foreign_call([&] { return read_sortgrid_par(__VA_ARGS__); })
#define read_calblock(...) foreign_call([&] { return read_calblock(__VA_ARGS__); })
#define read_man_ori_fix(...) foreign_call([&] { return read_man_ori_fix(__VA_ARGS__); })
#define read_targets(...) foreign_call([&] { return read_targets(__VA_ARGS__); })
#define write_targets(...) foreign_call([&] { return write_targets(__VA_ARGS__); })
#define read_path_frame(...) foreign_call([&] { return read_path_frame(__VA_ARGS__); })
#define write_path_frame(...) foreign_call([&] { return write_path_frame(__VA_ARGS__); })
#define read_frame(...) foreign_call([&] { return read_frame(__VA_ARGS__); })
#define write_frame(...) foreign_call([&] { return write_frame(__VA_ARGS__); })
#define tr_new(...) foreign_call([&] { return tr_new(__VA_ARGS__); })
#define tr_new_legacy(...) foreign_call([&] { return tr_new_legacy(__VA_ARGS__); })
#define track_forward_start(...) foreign_call([&] { return track_forward_start(__VA_ARGS__); })
#define trackcorr_c_loop(...) foreign_call([&] { return trackcorr_c_loop(__VA_ARGS__); })
#define trackcorr_c_finish(...) foreign_call([&] { return trackcorr_c_finish(__VA_ARGS__); })
#define trackback_c(...) foreign_call([&] { return trackback_c(__VA_ARGS__); })
#endif
