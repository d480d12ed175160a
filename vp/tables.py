"""What pyspectral documents: platforms, instruments, band aliases, data sets.

Frozen here on purpose: the monitors must not take these from the code they judge.
Entries the code adds are not judged.
"""
# flake8: noqa
INSTRUMENTS = {'Aqua': 'modis',
 'Arctica-M-N1': 'msu-gsa',
 'DSCOVR': 'epic',
 'EOS-Aqua': 'modis',
 'EOS-Terra': 'modis',
 'Electro-L-N2': 'msu-gs',
 'Envisat': 'aatsr',
 'FY-3A': ['virr', 'mersi-1'],
 'FY-3B': ['virr', 'mersi-1'],
 'FY-3C': ['virr', 'mersi-1'],
 'FY-3D': 'mersi-2',
 'FY-3F': 'mersi-3',
 'FY-3G': 'mersi-rm',
 'FY-4A': 'agri',
 'FY-4B': ['agri', 'ghi'],
 'GEO-KOMPSAT-2A': 'ami',
 'GEO-KOMPSAT-2B': 'goci-2',
 'GOES-16': 'abi',
 'GOES-17': 'abi',
 'GOES-18': 'abi',
 'GOES-19': 'abi',
 'HY-1C': 'cocts',
 'Himawari-8': 'ahi',
 'Himawari-9': 'ahi',
 'Landsat-8': 'oli_tirs',
 'Landsat-9': 'oli_tirs',
 'MTG-I1': 'fci',
 'Meteosat-10': 'seviri',
 'Meteosat-11': 'seviri',
 'Meteosat-12': 'fci',
 'Meteosat-8': 'seviri',
 'Meteosat-9': 'seviri',
 'Metop-A': 'avhrr/3',
 'Metop-B': 'avhrr/3',
 'Metop-C': 'avhrr/3',
 'Metop-SG-A1': 'metimage',
 'NOAA-10': 'avhrr/1',
 'NOAA-11': 'avhrr/2',
 'NOAA-12': 'avhrr/2',
 'NOAA-14': 'avhrr/2',
 'NOAA-15': 'avhrr/3',
 'NOAA-16': 'avhrr/3',
 'NOAA-17': 'avhrr/3',
 'NOAA-18': 'avhrr/3',
 'NOAA-19': 'avhrr/3',
 'NOAA-20': 'viirs',
 'NOAA-21': 'viirs',
 'NOAA-6': 'avhrr/1',
 'NOAA-7': 'avhrr/2',
 'NOAA-8': 'avhrr/1',
 'NOAA-9': 'avhrr/2',
 'Sentinel-2A': 'msi',
 'Sentinel-2B': 'msi',
 'Sentinel-2C': 'msi',
 'Sentinel-3A': ['olci', 'slstr'],
 'Sentinel-3B': ['olci', 'slstr'],
 'Suomi-NPP': 'viirs',
 'TIROS-N': 'avhrr/1',
 'Terra': 'modis'}

BANDNAMES = {'VII': {'vii_10690': 'vii-37',
         'vii_12020': 'vii-39',
         'vii_1240': 'vii-22',
         'vii_13345': 'vii-40',
         'vii_1375': 'vii-23',
         'vii_1630': 'vii-24',
         'vii_2250': 'vii-25',
         'vii_3740': 'vii-26',
         'vii_3959': 'vii-28',
         'vii_4050': 'vii-30',
         'vii_443': 'vii-4',
         'vii_555': 'vii-8',
         'vii_668': 'vii-12',
         'vii_6725': 'vii-33',
         'vii_7325': 'vii-34',
         'vii_752': 'vii-15',
         'vii_763': 'vii-16',
         'vii_8540': 'vii-35',
         'vii_865': 'vii-17',
         'vii_914': 'vii-20'},
 'abi': {'C01': 'ch1',
         'C02': 'ch2',
         'C03': 'ch3',
         'C04': 'ch4',
         'C05': 'ch5',
         'C06': 'ch6',
         'C07': 'ch7',
         'C08': 'ch8',
         'C09': 'ch9',
         'C10': 'ch10',
         'C11': 'ch11',
         'C12': 'ch12',
         'C13': 'ch13',
         'C14': 'ch14',
         'C15': 'ch15',
         'C16': 'ch16'},
 'agri': {'C01': 'ch1',
          'C02': 'ch2',
          'C03': 'ch3',
          'C04': 'ch4',
          'C05': 'ch5',
          'C06': 'ch6',
          'C07': 'ch7',
          'C08': 'ch8',
          'C09': 'ch9',
          'C10': 'ch10',
          'C11': 'ch11',
          'C12': 'ch12',
          'C13': 'ch13',
          'C14': 'ch14'},
 'ahi': {'B01': 'ch1',
         'B02': 'ch2',
         'B03': 'ch3',
         'B04': 'ch4',
         'B05': 'ch5',
         'B06': 'ch6',
         'B07': 'ch7',
         'B08': 'ch8',
         'B09': 'ch9',
         'B10': 'ch10',
         'B11': 'ch11',
         'B12': 'ch12',
         'B13': 'ch13',
         'B14': 'ch14',
         'B15': 'ch15',
         'B16': 'ch16'},
 'ami': {'IR087': 'ch11',
         'IR096': 'ch12',
         'IR105': 'ch13',
         'IR112': 'ch14',
         'IR123': 'ch15',
         'IR133': 'ch16',
         'NR013': 'ch5',
         'NR016': 'ch6',
         'SW038': 'ch7',
         'VI004': 'ch1',
         'VI005': 'ch2',
         'VI006': 'ch3',
         'VI008': 'ch4',
         'WV063': 'ch8',
         'WV069': 'ch9',
         'WV073': 'ch10'},
 'avhrr-3': {'1': 'ch1', '2': 'ch2', '3a': 'ch3a', '3b': 'ch3b', '4': 'ch4', '5': 'ch5'},
 'avhrr/3': {'1': 'ch1', '2': 'ch2', '3a': 'ch3a', '3b': 'ch3b', '4': 'ch4', '5': 'ch5'},
 'avhrr3': {'1': 'ch1', '2': 'ch2', '3a': 'ch3a', '3b': 'ch3b', '4': 'ch4', '5': 'ch5'},
 'fci': {'ir_105': 'IR10.5_HR',
         'ir_123': 'IR12.3',
         'ir_133': 'IR13.3',
         'ir_38': 'IR3.8_HR',
         'ir_87': 'IR8.7',
         'ir_97': 'IR9.7',
         'nir_13': 'NIR1.3',
         'nir_16': 'NIR1.6',
         'nir_22': 'NIR2.2_HR',
         'vis_04': 'VIS0.4',
         'vis_05': 'VIS0.5',
         'vis_06': 'VIS0.6_HR',
         'vis_08': 'VIS0.8',
         'vis_09': 'VIS0.9',
         'wv_63': 'WV6.3',
         'wv_73': 'WV7.3'},
 'generic': {'1': 'ch1',
             '10': 'ch10',
             '11': 'ch11',
             '12': 'ch12',
             '13': 'ch13',
             '14': 'ch14',
             '15': 'ch15',
             '16': 'ch16',
             '17': 'ch17',
             '18': 'ch18',
             '19': 'ch19',
             '2': 'ch2',
             '20': 'ch20',
             '21': 'ch21',
             '22': 'ch22',
             '23': 'ch23',
             '24': 'ch24',
             '25': 'ch25',
             '26': 'ch26',
             '27': 'ch27',
             '28': 'ch28',
             '29': 'ch29',
             '3': 'ch3',
             '30': 'ch30',
             '31': 'ch31',
             '32': 'ch32',
             '33': 'ch33',
             '34': 'ch34',
             '35': 'ch35',
             '36': 'ch36',
             '4': 'ch4',
             '5': 'ch5',
             '6': 'ch6',
             '7': 'ch7',
             '8': 'ch8',
             '9': 'ch9',
             'C01': 'ch1',
             'C02': 'ch2',
             'C03': 'ch3',
             'C04': 'ch4',
             'C05': 'ch5',
             'C06': 'ch6',
             'C07': 'ch7',
             'C08': 'ch8',
             'C09': 'ch9',
             'C10': 'ch10',
             'C11': 'ch11',
             'C12': 'ch12',
             'C13': 'ch13',
             'C14': 'ch14',
             'C15': 'ch15',
             'C16': 'ch16',
             'HRV': 'HRV',
             'I01': 'I1',
             'I02': 'I2',
             'I03': 'I3',
             'I04': 'I4',
             'I05': 'I5',
             'IR_016': 'NIR1.6',
             'IR_039': 'IR3.9',
             'IR_087': 'IR8.7',
             'IR_097': 'IR9.7',
             'IR_108': 'IR10.8',
             'IR_120': 'IR12.0',
             'IR_134': 'IR13.4',
             'M01': 'M1',
             'M02': 'M2',
             'M03': 'M3',
             'M04': 'M4',
             'M05': 'M5',
             'M06': 'M6',
             'M07': 'M7',
             'M08': 'M8',
             'M09': 'M9',
             'VIS006': 'VIS0.6',
             'VIS008': 'VIS0.8',
             'WV_062': 'IR6.2',
             'WV_073': 'IR7.3'},
 'metimage': {'vii_10690': 'vii-37',
              'vii_12020': 'vii-39',
              'vii_1240': 'vii-22',
              'vii_13345': 'vii-40',
              'vii_1375': 'vii-23',
              'vii_1630': 'vii-24',
              'vii_2250': 'vii-25',
              'vii_3740': 'vii-26',
              'vii_3959': 'vii-28',
              'vii_4050': 'vii-30',
              'vii_443': 'vii-4',
              'vii_555': 'vii-8',
              'vii_668': 'vii-12',
              'vii_6725': 'vii-33',
              'vii_7325': 'vii-34',
              'vii_752': 'vii-15',
              'vii_763': 'vii-16',
              'vii_8540': 'vii-35',
              'vii_865': 'vii-17',
              'vii_914': 'vii-20'},
 'modis': {'1': '1',
           '10': '10',
           '11': '11',
           '12': '12',
           '13': '13',
           '14': '14',
           '15': '15',
           '16': '16',
           '17': '17',
           '18': '18',
           '19': '19',
           '2': '2',
           '20': '20',
           '21': '21',
           '22': '22',
           '23': '23',
           '24': '24',
           '25': '25',
           '26': '26',
           '27': '27',
           '28': '28',
           '29': '29',
           '3': '3',
           '30': '30',
           '31': '31',
           '32': '32',
           '33': '33',
           '34': '34',
           '35': '35',
           '36': '36',
           '4': '4',
           '5': '5',
           '6': '6',
           '7': '7',
           '8': '8',
           '9': '9'},
 'seviri': {'HRV': 'HRV',
            'IR_016': 'NIR1.6',
            'IR_039': 'IR3.9',
            'IR_087': 'IR8.7',
            'IR_097': 'IR9.7',
            'IR_108': 'IR10.8',
            'IR_120': 'IR12.0',
            'IR_134': 'IR13.4',
            'VIS006': 'VIS0.6',
            'VIS008': 'VIS0.8',
            'WV_062': 'IR6.2',
            'WV_073': 'IR7.3'},
 'slstr': {'F1': 'ch7',
           'F2': 'ch8',
           'S1': 'ch1',
           'S2': 'ch2',
           'S3': 'ch3',
           'S4': 'ch4',
           'S5': 'ch5',
           'S6': 'ch6',
           'S7': 'ch7',
           'S8': 'ch8',
           'S9': 'ch9'},
 'viirs': {'I01': 'I1',
           'I02': 'I2',
           'I03': 'I3',
           'I04': 'I4',
           'I05': 'I5',
           'M01': 'M1',
           'M02': 'M2',
           'M03': 'M3',
           'M04': 'M4',
           'M05': 'M5',
           'M06': 'M6',
           'M07': 'M7',
           'M08': 'M8',
           'M09': 'M9'}}

SEVIRI = {'IR10.8': {'Meteosat-8': [930.647, 0.9983, 0.625], 'Meteosat-9': [931.7, 0.9983, 0.64]},
 'IR12.0': {'Meteosat-8': [839.66, 0.9988, 0.397], 'Meteosat-9': [836.445, 0.9988, 0.408]},
 'IR13.4': {'Meteosat-8': [752.387, 0.9981, 0.578], 'Meteosat-9': [751.792, 0.9981, 0.561]},
 'IR3.9': {'Meteosat-10': [], 'Meteosat-8': [2567.33, 0.9956, 3.41], 'Meteosat-9': [2568.832, 0.9954, 3.438]},
 'IR6.2': {'Meteosat-8': [1598.103, 0.9962, 2.218], 'Meteosat-9': [1600.548, 0.9963, 2.185]},
 'IR7.3': {'Meteosat-8': [1362.081, 0.9991, 0.478], 'Meteosat-9': [1360.33, 0.9991, 0.47]},
 'IR8.7': {'Meteosat-8': [1149.069, 0.9996, 0.179], 'Meteosat-9': [1148.62, 0.9996, 0.179]},
 'IR9.7': {'Meteosat-8': [1034.343, 0.9999, 0.06], 'Meteosat-9': [1035.289, 0.9999, 0.056]},
 'WV6.2': {'Meteosat-8': [1598.103, 0.9962, 2.218], 'Meteosat-9': [1600.548, 0.9963, 2.185]},
 'WV7.3': {'Meteosat-8': [1362.081, 0.9991, 0.478], 'Meteosat-9': [1360.33, 0.9991, 0.47]}}

AEROSOLS = {'antarctic_aerosol': {'filename': 'PYSPECTRAL_ATM_CORR_LUT_AA',
                       'url': 'https://zenodo.org/record/1288441/files/pyspectral_atm_correction_luts_antarctic_aerosol.tgz',
                       'version': 'v1.0.1'},
 'continental_average_aerosol': {'filename': 'PYSPECTRAL_ATM_CORR_LUT_CAA',
                                 'url': 'https://zenodo.org/record/1288441/files/pyspectral_atm_correction_luts_continental_average_aerosol.tgz',
                                 'version': 'v1.0.1'},
 'continental_clean_aerosol': {'filename': 'PYSPECTRAL_ATM_CORR_LUT_CCA',
                               'url': 'https://zenodo.org/record/1288441/files/pyspectral_atm_correction_luts_continental_clean_aerosol.tgz',
                               'version': 'v1.0.1'},
 'continental_polluted_aerosol': {'filename': 'PYSPECTRAL_ATM_CORR_LUT_CPA',
                                  'url': 'https://zenodo.org/record/1288441/files/pyspectral_atm_correction_luts_continental_polluted_aerosol.tgz',
                                  'version': 'v1.0.1'},
 'desert_aerosol': {'filename': 'PYSPECTRAL_ATM_CORR_LUT_DA',
                    'url': 'https://zenodo.org/record/1288441/files/pyspectral_atm_correction_luts_desert_aerosol.tgz',
                    'version': 'v1.0.1'},
 'marine_clean_aerosol': {'filename': 'PYSPECTRAL_ATM_CORR_LUT_MCA',
                          'url': 'https://zenodo.org/record/1288441/files/pyspectral_atm_correction_luts_marine_clean_aerosol.tgz',
                          'version': 'v1.0.1'},
 'marine_polluted_aerosol': {'filename': 'PYSPECTRAL_ATM_CORR_LUT_MPA',
                             'url': 'https://zenodo.org/record/1288441/files/pyspectral_atm_correction_luts_marine_polluted_aerosol.tgz',
                             'version': 'v1.0.1'},
 'marine_tropical_aerosol': {'filename': 'PYSPECTRAL_ATM_CORR_LUT_MTA',
                             'url': 'https://zenodo.org/record/1288441/files/pyspectral_atm_correction_luts_marine_tropical_aerosol.tgz',
                             'version': 'v1.0.1'},
 'rayleigh_only': {'filename': 'PYSPECTRAL_ATM_CORR_LUT_RO',
                   'url': 'https://zenodo.org/record/1288441/files/pyspectral_atm_correction_luts_no_aerosol.tgz',
                   'version': 'v1.0.1'},
 'rural_aerosol': {'filename': 'PYSPECTRAL_ATM_CORR_LUT_RA',
                   'url': 'https://zenodo.org/record/1288441/files/pyspectral_atm_correction_luts_rural_aerosol.tgz',
                   'version': 'v1.0.1'},
 'urban_aerosol': {'filename': 'PYSPECTRAL_ATM_CORR_LUT_UA',
                   'url': 'https://zenodo.org/record/1288441/files/pyspectral_atm_correction_luts_urban_aerosol.tgz',
                   'version': 'v1.0.1'}}

ATMOSPHERES = ['subarctic summer',
 'subarctic winter',
 'midlatitude summer',
 'midlatitude winter',
 'tropical',
 'us-standard']

RSR_URL = 'https://zenodo.org/records/19373017/files/pyspectral_rsr_data.tgz'
RSR_VERSION = 'v1.6.1'
RSR_VERSION_FILE = 'PYSPECTRAL_RSR_VERSION'
