"""Writers of instrument files, from the published layouts (no shared code with the readers)."""
import struct

import numpy as np

# name -> (offset, struct code) of the ATS header (1024 bytes, little endian)
ATS_FIELDS = dict(
    header_length=(0, 'h'), header_version=(2, 'h'), sample_length=(4, 'i'), sampling_rate=(8, 'f'), start=(12, 'i'), lsbval=(16, 'd'),
    GMToffset=(24, 'i'), serial_number_ADU06=(32, 'H'), serial_number_ADC_board=(34, 'h'), channel_number=(36, 'b'), channel_type=(38, '2s'),
    sensor_type=(40, '6s'), sensor_serial_number=(46, 'h'), x1=(48, 'f'), y1=(52, 'f'), z1=(56, 'f'), x2=(60, 'f'), y2=(64, 'f'), z2=(68, 'f'),
    E_field_dipole_length=(72, 'f'), angle=(76, 'f'), rho_probe=(80, 'f'), DC_offset_voltage=(84, 'f'), internal_gain_ampli=(88, 'f'),
    ADU_Lat=(96, 'i'), ADU_Long=(100, 'i'), ADU_Elev=(104, 'i'), Lat_Long_TYPE=(108, '1s'), add_coordinates=(109, '1s'), ref_meridian=(110, 'h'),
    xcoor=(112, 'd'), ycoor=(120, 'd'), gps_clock_status=(128, '1s'), accuracy_GPS=(129, 'b'), offset_UTC=(130, 'h'),
    survey_header_filename=(144, '12s'), type_of_meas=(156, '4s'), logfile=(160, '12s'), result_selftest=(172, '2s'),
    number_of_calib_freq=(176, 'h'), length_of_freq_entry=(178, 'h'), version_calib=(180, 'h'), start_addres=(182, 'h'),
    cal_filename_ADU06=(192, '12s'), datetime_calib=(204, 'i'), cal_sensor_filename=(208, '12s'), datetime_calib_sens=(220, 'i'),
    powerline1=(224, 'f'), powerline2=(228, 'f'), CSAMT_Tx_freq=(240, 'f'), CSAMT_TS_blocks=(244, 'h'), CSAMT_stacks=(246, 'h'),
    CSAMT_blk_length=(248, 'i'), Client=(256, '16s'), Contractor=(272, '16s'), Area=(288, '16s'), SurveyID=(304, '16s'), Operator=(320, '16s'),
    Weather=(448, '64s'), Comments=(512, '512s'),
)


def ats_bytes(samples, rate, start, lsb=1., announced=None, header_length=1024, **fields):
    samples = np.asarray(samples, dtype='<i4')
    fields.update(header_length=header_length, sample_length=len(samples) if announced is None else announced,
                  sampling_rate=rate, start=start, lsbval=lsb)
    fields.setdefault('header_version', 80)
    buf = bytearray(max(header_length, 1024))
    for name, v in fields.items():
        off, code = ATS_FIELDS[name]
        struct.pack_into('<' + code, buf, off, v)
    return bytes(buf) + samples.tobytes()


def write_ats(path, *a, **k):
    path.parent.mkdir(parents=True, exist_ok=True)
    path.write_bytes(ats_bytes(*a, **k))
    return str(path)
