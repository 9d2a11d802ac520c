"""Oracle: tag number, TIFF data type and IFD of every tag the library names, as published in Exif 2.32
(CIPA DC-008), TIFF 6.0 and the ExifTool tag-name tables; written down here, not read from /repo.
Types are TIFF type names; IFDs: 0 = IFD0/IFD1, E = Exif IFD, G = GPS IFD, I = Interoperability IFD."""
TAGS = {
    "GPSVersionID":                  (0x0000, "BYTE",      "G"),
    "GPSLatitudeRef":                (0x0001, "ASCII",     "G"),
    "GPSLatitude":                   (0x0002, "RATIONAL",  "G"),
    "GPSLongitudeRef":               (0x0003, "ASCII",     "G"),
    "GPSLongitude":                  (0x0004, "RATIONAL",  "G"),
    "GPSAltitudeRef":                (0x0005, "BYTE",      "G"),
    "GPSAltitude":                   (0x0006, "RATIONAL",  "G"),
    "GPSTimeStamp":                  (0x0007, "RATIONAL",  "G"),
    "GPSSatellites":                 (0x0008, "ASCII",     "G"),
    "GPSStatus":                     (0x0009, "ASCII",     "G"),
    "GPSMeasureMode":                (0x000a, "ASCII",     "G"),
    "GPSDOP":                        (0x000b, "RATIONAL",  "G"),
    "GPSSpeedRef":                   (0x000c, "ASCII",     "G"),
    "GPSSpeed":                      (0x000d, "RATIONAL",  "G"),
    "GPSTrackRef":                   (0x000e, "ASCII",     "G"),
    "GPSTrack":                      (0x000f, "RATIONAL",  "G"),
    "GPSImgDirectionRef":            (0x0010, "ASCII",     "G"),
    "GPSImgDirection":               (0x0011, "RATIONAL",  "G"),
    "GPSMapDatum":                   (0x0012, "ASCII",     "G"),
    "GPSDestLatitudeRef":            (0x0013, "ASCII",     "G"),
    "GPSDestLatitude":               (0x0014, "RATIONAL",  "G"),
    "GPSDestLongitudeRef":           (0x0015, "ASCII",     "G"),
    "GPSDestLongitude":              (0x0016, "RATIONAL",  "G"),
    "GPSDestBearingRef":             (0x0017, "ASCII",     "G"),
    "GPSDestBearing":                (0x0018, "RATIONAL",  "G"),
    "GPSDestDistanceRef":            (0x0019, "ASCII",     "G"),
    "GPSDestDistance":               (0x001a, "RATIONAL",  "G"),
    "GPSProcessingMethod":           (0x001b, "UNDEFINED", "G"),
    "GPSAreaInformation":            (0x001c, "UNDEFINED", "G"),
    "GPSDateStamp":                  (0x001d, "ASCII",     "G"),
    "GPSDifferential":               (0x001e, "SHORT",     "G"),
    "GPSHPositioningError":          (0x001f, "RATIONAL",  "G"),
    "InteroperabilityIndex":         (0x0001, "ASCII",     "I"),
    "InteroperabilityVersion":       (0x0002, "UNDEFINED", "I"),
    "ImageWidth":                    (0x0100, "LONG",      "0"),
    "ImageHeight":                   (0x0101, "LONG",      "0"),
    "BitsPerSample":                 (0x0102, "SHORT",     "0"),
    "Compression":                   (0x0103, "SHORT",     "0"),
    "PhotometricInterpretation":     (0x0106, "SHORT",     "0"),
    "CellWidth":                     (0x0108, "SHORT",     "0"),
    "CellHeight":                    (0x0109, "SHORT",     "0"),
    "ImageDescription":              (0x010e, "ASCII",     "0"),
    "Make":                          (0x010f, "ASCII",     "0"),
    "Model":                         (0x0110, "ASCII",     "0"),
    "Orientation":                   (0x0112, "SHORT",     "0"),
    "SamplesPerPixel":               (0x0115, "SHORT",     "0"),
    "RowsPerStrip":                  (0x0116, "LONG",      "0"),
    "XResolution":                   (0x011a, "RATIONAL",  "0"),
    "YResolution":                   (0x011b, "RATIONAL",  "0"),
    "PlanarConfiguration":           (0x011c, "SHORT",     "0"),
    "ResolutionUnit":                (0x0128, "SHORT",     "0"),
    "TransferFunction":              (0x012d, "SHORT",     "0"),
    "Software":                      (0x0131, "ASCII",     "0"),
    "ModifyDate":                    (0x0132, "ASCII",     "0"),
    "Artist":                        (0x013b, "ASCII",     "0"),
    "WhitePoint":                    (0x013e, "RATIONAL",  "0"),
    "PrimaryChromaticities":         (0x013f, "RATIONAL",  "0"),
    "ColorMap":                      (0x0140, "SHORT",     "0"),
    "YCbCrCoefficients":             (0x0211, "RATIONAL",  "0"),
    "YCbCrSubSampling":              (0x0212, "SHORT",     "0"),
    "YCbCrPositioning":              (0x0213, "SHORT",     "0"),
    "ReferenceBlackWhite":           (0x0214, "RATIONAL",  "0"),
    "Copyright":                     (0x8298, "ASCII",     "0"),
    "ExposureTime":                  (0x829a, "RATIONAL",  "E"),
    "FNumber":                       (0x829d, "RATIONAL",  "E"),
    "ExifOffset":                    (0x8769, "LONG",      "0"),
    "ExposureProgram":               (0x8822, "SHORT",     "E"),
    "SpectralSensitivity":           (0x8824, "ASCII",     "E"),
    "GPSInfo":                       (0x8825, "LONG",      "0"),
    "ISO":                           (0x8827, "SHORT",     "E"),
    "OECF":                          (0x8828, "UNDEFINED", "E"),
    "SensitivityType":               (0x8830, "SHORT",     "E"),
    "StandardOutputSensitivity":     (0x8831, "LONG",      "E"),
    "RecommendedExposureIndex":      (0x8832, "LONG",      "E"),
    "ISOSpeed":                      (0x8833, "LONG",      "E"),
    "ISOSpeedLatitudeyyy":           (0x8834, "LONG",      "E"),
    "ISOSpeedLatitudezzz":           (0x8835, "LONG",      "E"),
    "ExifVersion":                   (0x9000, "UNDEFINED", "E"),
    "DateTimeOriginal":              (0x9003, "ASCII",     "E"),
    "CreateDate":                    (0x9004, "ASCII",     "E"),
    "OffsetTime":                    (0x9010, "ASCII",     "E"),
    "OffsetTimeOriginal":            (0x9011, "ASCII",     "E"),
    "OffsetTimeDigitized":           (0x9012, "ASCII",     "E"),
    "ComponentsConfiguration":       (0x9101, "UNDEFINED", "E"),
    "CompressedBitsPerPixel":        (0x9102, "RATIONAL",  "E"),
    "ShutterSpeedValue":             (0x9201, "SRATIONAL", "E"),
    "ApertureValue":                 (0x9202, "RATIONAL",  "E"),
    "BrightnessValue":               (0x9203, "SRATIONAL", "E"),
    "ExposureCompensation":          (0x9204, "SRATIONAL", "E"),
    "MaxApertureValue":              (0x9205, "RATIONAL",  "E"),
    "SubjectDistance":               (0x9206, "RATIONAL",  "E"),
    "MeteringMode":                  (0x9207, "SHORT",     "E"),
    "LightSource":                   (0x9208, "SHORT",     "E"),
    "Flash":                         (0x9209, "SHORT",     "E"),
    "FocalLength":                   (0x920a, "RATIONAL",  "E"),
    "SubjectArea":                   (0x9214, "SHORT",     "E"),
    "MakerNote":                     (0x927c, "UNDEFINED", "E"),
    "UserComment":                   (0x9286, "UNDEFINED", "E"),
    "SubSecTime":                    (0x9290, "ASCII",     "E"),
    "SubSecTimeOriginal":            (0x9291, "ASCII",     "E"),
    "SubSecTimeDigitized":           (0x9292, "ASCII",     "E"),
    "AmbientTemperature":            (0x9400, "SRATIONAL", "E"),
    "Humidity":                      (0x9401, "RATIONAL",  "E"),
    "Pressure":                      (0x9402, "RATIONAL",  "E"),
    "WaterDepth":                    (0x9403, "SRATIONAL", "E"),
    "Acceleration":                  (0x9404, "RATIONAL",  "E"),
    "CameraElevationAngle":          (0x9405, "SRATIONAL", "E"),
    "FlashpixVersion":               (0xa000, "UNDEFINED", "E"),
    "ColorSpace":                    (0xa001, "SHORT",     "E"),
    "ExifImageWidth":                (0xa002, "LONG",      "E"),
    "ExifImageHeight":               (0xa003, "LONG",      "E"),
    "RelatedSoundFile":              (0xa004, "ASCII",     "E"),
    "InteropOffset":                 (0xa005, "LONG",      "E"),
    "FlashEnergy":                   (0xa20b, "RATIONAL",  "E"),
    "SpatialFrequencyResponse":      (0xa20c, "SHORT",     "E"),
    "FocalPlaneXResolution":         (0xa20e, "RATIONAL",  "E"),
    "FocalPlaneYResolution":         (0xa20f, "RATIONAL",  "E"),
    "FocalPlaneResolutionUnit":      (0xa210, "SHORT",     "E"),
    "SubjectLocation":               (0xa214, "SHORT",     "E"),
    "ExposureIndex":                 (0xa215, "RATIONAL",  "E"),
    "SensingMethod":                 (0xa217, "SHORT",     "E"),
    "FileSource":                    (0xa300, "UNDEFINED", "E"),
    "SceneType":                     (0xa301, "UNDEFINED", "E"),
    "CFAPattern":                    (0xa302, "UNDEFINED", "E"),
    "CustomRendered":                (0xa401, "SHORT",     "E"),
    "ExposureMode":                  (0xa402, "SHORT",     "E"),
    "WhiteBalance":                  (0xa403, "SHORT",     "E"),
    "DigitalZoomRatio":              (0xa404, "RATIONAL",  "E"),
    "FocalLengthIn35mmFormat":       (0xa405, "SHORT",     "E"),
    "SceneCaptureType":              (0xa406, "SHORT",     "E"),
    "GainControl":                   (0xa407, "SHORT",     "E"),
    "Contrast":                      (0xa408, "SHORT",     "E"),
    "Saturation":                    (0xa409, "SHORT",     "E"),
    "Sharpness":                     (0xa40a, "SHORT",     "E"),
    "DeviceSettingDescription":      (0xa40b, "UNDEFINED", "E"),
    "SubjectDistanceRange":          (0xa40c, "SHORT",     "E"),
    "ImageUniqueID":                 (0xa420, "ASCII",     "E"),
    "OwnerName":                     (0xa430, "ASCII",     "E"),
    "SerialNumber":                  (0xa431, "ASCII",     "E"),
    "LensInfo":                      (0xa432, "RATIONAL",  "E"),
    "LensMake":                      (0xa433, "ASCII",     "E"),
    "LensModel":                     (0xa434, "ASCII",     "E"),
    "LensSerialNumber":              (0xa435, "ASCII",     "E"),
    "CompositeImage":                (0xa460, "SHORT",     "E"),
    "CompositeImageCount":           (0xa461, "SHORT",     "E"),
    "CompositeImageExposureTimes":   (0xa462, "UNDEFINED", "E"),
    "Gamma":                         (0xa500, "RATIONAL",  "E"),
}
# data offset tags: accepted in every IFD, carried with their payload
OFFSET_TAGS = {
    "StripOffsets": (0x0111, "LONG"), "StripByteCounts": (0x0117, "LONG"),
    "ThumbnailOffset": (0x0201, "LONG"), "ThumbnailLength": (0x0202, "LONG"),
}
# TIFF 6.0 section 2: type name -> (code, bytes per component, library's name)
TYPES = {
    "BYTE": (1, 1, "INT8U"), "ASCII": (2, 1, "STRING"), "SHORT": (3, 2, "INT16U"), "LONG": (4, 4, "INT32U"),
    "RATIONAL": (5, 8, "RATIONAL64U"), "SBYTE": (6, 1, "INT8S"), "UNDEFINED": (7, 1, "UNDEF"), "SSHORT": (8, 2, "INT16S"),
    "SLONG": (9, 4, "INT32S"), "SRATIONAL": (10, 8, "RATIONAL64S"), "FLOAT": (11, 4, "FLOAT"), "DOUBLE": (12, 8, "DOUBLE"),
}
GROUPS = {"0": "GENERIC", "E": "EXIF", "G": "GPS", "I": "INTEROP"}
