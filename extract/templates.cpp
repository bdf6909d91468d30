// Instantiates the templates that vmime's headers offer to programs and that
// the library itself does not use with every kind of value, so that their
// bodies are part of what the checks look at. Only parsed, never built.

#include "vmime/vmime.hpp"
#include "vmime/propertySet.hpp"
#include "vmime/utility/outputStream.hpp"
#include "vmime/utility/stringUtils.hpp"

#if VMIME_HAVE_MESSAGING_FEATURES && VMIME_HAVE_SASL_SUPPORT

#include "vmime/security/sasl/SASLMechanismFactory.hpp"
#include "vmime/security/sasl/builtinSASLMechanism.hpp"

void vmsaMechanisms(vmime::security::sasl::SASLMechanismFactory* f) {

	f->registerMechanism <vmime::security::sasl::builtinSASLMechanism>("X-Mech");
}

#endif

int vmsaTemplates(vmime::propertySet& p, vmime::utility::outputStream& os) {

	p.setProperty("a", 5);
	p["b"] = 7;
	p.setProperty("c", true);
	os << 12;

	return p.getProperty <int>("a") + p.getProperty <int>("b", 4)
		+ p["b"].getValue <int>()
		+ vmime::utility::stringUtils::fromString <int>("4")
		+ static_cast <int>(vmime::utility::stringUtils::toString(5).length());
}
