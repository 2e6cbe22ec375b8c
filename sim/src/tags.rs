//! The EXIF tags a user can name, by number (EXIF 2.32 / TIFF 6.0), independent of the library.
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

pub const TAGS: &[(u16, &str)] = &[
    (0x0000, "GPSVersionID"),
    (0x0001, "GPSLatitudeRef"),
    (0x0002, "GPSLatitude"),
    (0x0003, "GPSLongitudeRef"),
    (0x0004, "GPSLongitude"),
    (0x0005, "GPSAltitudeRef"),
    (0x0006, "GPSAltitude"),
    (0x0007, "GPSTimeStamp"),
    (0x0008, "GPSSatellites"),
    (0x0009, "GPSStatus"),
    (0x000a, "GPSMeasureMode"),
    (0x000b, "GPSDOP"),
    (0x000c, "GPSSpeedRef"),
    (0x000d, "GPSSpeed"),
    (0x000e, "GPSTrackRef"),
    (0x000f, "GPSTrack"),
    (0x0010, "GPSImgDirectionRef"),
    (0x0011, "GPSImgDirection"),
    (0x0012, "GPSMapDatum"),
    (0x0013, "GPSDestLatitudeRef"),
    (0x0014, "GPSDestLatitude"),
    (0x0015, "GPSDestLongitudeRef"),
    (0x0016, "GPSDestLongitude"),
    (0x0017, "GPSDestBearingRef"),
    (0x0018, "GPSDestBearing"),
    (0x0019, "GPSDestDistanceRef"),
    (0x001a, "GPSDestDistance"),
    (0x001b, "GPSProcessingMethod"),
    (0x001c, "GPSAreaInformation"),
    (0x001d, "GPSDateStamp"),
    (0x001e, "GPSDifferential"),
    (0x0100, "ImageWidth"),
    (0x0101, "ImageHeight"),
    (0x0102, "BitsPerSample"),
    (0x0103, "Compression"),
    (0x0106, "PhotometricInterpretation"),
    (0x010e, "ImageDescription"),
    (0x010f, "Make"),
    (0x0110, "Model"),
    (0x0112, "Orientation"),
    (0x0115, "SamplesPerPixel"),
    (0x0116, "RowsPerStrip"),
    (0x011a, "XResolution"),
    (0x011b, "YResolution"),
    (0x011c, "PlanarConfiguration"),
    (0x0128, "ResolutionUnit"),
    (0x0131, "Software"),
    (0x0132, "ModifyDate"),
    (0x013c, "HostComputer"),
    (0x013e, "WhitePoint"),
    (0x013f, "PrimaryChromaticities"),
    (0x0201, "ThumbnailOffset"),
    (0x0202, "ThumbnailLength"),
    (0x0211, "YCbCrCoefficients"),
    (0x0213, "YCbCrPositioning"),
    (0x0214, "ReferenceBlackWhite"),
    (0x8298, "Copyright"),
    (0x829a, "ExposureTime"),
    (0x829d, "FNumber"),
    (0x8769, "ExifOffset"),
    (0x8822, "ExposureProgram"),
    (0x8824, "SpectralSensitivity"),
    (0x8825, "GPSInfo"),
    (0x8827, "ISOSpeedRatings"),
    (0x8828, "OECF"),
    (0x8830, "SensitivityType"),
    (0x8832, "RecommendedExposureIndex"),
    (0x9000, "ExifVersion"),
    (0x9003, "DateTimeOriginal"),
    (0x9004, "CreateDate"),
    (0x9010, "OffsetTime"),
    (0x9011, "OffsetTimeOriginal"),
    (0x9012, "OffsetTimeDigitized"),
    (0x9101, "ComponentsConfiguration"),
    (0x9201, "ShutterSpeedValue"),
    (0x9202, "ApertureValue"),
    (0x9203, "BrightnessValue"),
    (0x9204, "ExposureBiasValue"),
    (0x9205, "MaxApertureValue"),
    (0x9206, "SubjectDistance"),
    (0x9207, "MeteringMode"),
    (0x9208, "LightSource"),
    (0x9209, "Flash"),
    (0x920a, "FocalLength"),
    (0x9214, "SubjectArea"),
    (0x927c, "MakerNote"),
    (0x9286, "UserComment"),
    (0x9290, "SubSecTime"),
    (0x9291, "SubSecTimeOriginal"),
    (0x9292, "SubSecTimeDigitized"),
    (0xa000, "FlashPixVersion"),
    (0xa001, "ColorSpace"),
    (0xa002, "ExifImageWidth"),
    (0xa003, "ExifImageHeight"),
    (0xa004, "RelatedSoundFile"),
    (0xa005, "InteropOffset"),
    (0xa20b, "FlashEnergy"),
    (0xa20e, "FocalPlaneXResolution"),
    (0xa20f, "FocalPlaneYResolution"),
    (0xa210, "FocalPlaneResolutionUnit"),
    (0xa214, "SubjectLocation"),
    (0xa215, "ExposureIndex"),
    (0xa217, "SensingMethod"),
    (0xa300, "FileSource"),
    (0xa301, "SceneType"),
    (0xa302, "CFAPattern"),
    (0xa401, "CustomRendered"),
    (0xa402, "ExposureMode"),
    (0xa403, "WhiteBalanceMode"),
    (0xa404, "DigitalZoomRatio"),
    (0xa405, "FocalLengthIn35mmFilm"),
    (0xa406, "SceneCaptureType"),
    (0xa407, "GainControl"),
    (0xa408, "Contrast"),
    (0xa409, "Saturation"),
    (0xa40a, "Sharpness"),
    (0xa40b, "DeviceSettingDescription"),
    (0xa40c, "SubjectDistanceRange"),
    (0xa420, "ImageUniqueID"),
    (0xa432, "LensSpecification"),
    (0xa433, "LensMake"),
    (0xa434, "LensModel"),
    (0xa500, "Gamma"),
];

pub fn name(code: u16) -> Option<&'static str> {
    TAGS.binary_search_by_key(&code, |t| t.0).ok().map(|i| TAGS[i].1)
}

/// What is wrong with a reported tag, if anything.
pub fn wrong(t: nom_exif::TagOrCode) -> Option<String> {
    let code = t.code();
    match (name(code), t.tag()) {
        (Some(n), Some(g)) if g.name() == n && g.code() == code => {
            // the name is the tag's text, and names the tag
            static FINE: [AtomicBool; 1 << 16] = [const { AtomicBool::new(false) }; 1 << 16];
            if FINE[code as usize].load(Relaxed) {
                return None;
            }
            let back = n.parse::<nom_exif::ExifTag>();
            if t.to_string() != n || g.to_string() != n || back.as_ref().ok().copied() != Some(g) {
                return Some(format!("tag {code:#06x}: {t} / {back:?}"));
            }
            FINE[code as usize].store(true, Relaxed);
            None
        }
        (Some(n), g) => Some(format!("tag {code:#06x} is {n}, reported as {g:?}")),
        // a library that learns further names is fine
        (None, Some(g)) if g.code() != code => Some(format!("tag {code:#06x} reported as {g:?}")),
        (None, _) => None,
    }
}
