//! Not available offline and not used by any code in sip-uac (only declared).
