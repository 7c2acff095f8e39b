// A replacement of the SSL stream for the checks of SSLSocket: the same interface and the same order
// of events as with OpenSSL, but a trivial cipher and a 3-message handshake.
// Client: "Cc" -> server: "Sss" -> client: "F". The client is connected by "Sss", the server by "F".
// Then records: 0x80 + length (1-3), xor'ed bytes. Anything else is an error.
#pragma once
#include "mg/box/Assert.h"
#include "mg/net/Buffer.h"
#include "mg/net/SSL.h"
#include <string>

namespace mg {
namespace net {

	class SSLContext;

	class SSLStream
	{
	public:
		// The context is just a flag whether it is a server.
		SSLStream(SSLContext* aCtx) : myIsServer(aCtx != nullptr) {}
		SSLStream(const SSLStream&) = delete;
		~SSLStream() { myState = -1; }

		bool Update()
		{
			if (PrivUpdate())
				return true;
			return myError == 0;
		}
		void Connect()
		{
			MG_BOX_ASSERT(myState == NEW);
			MG_BOX_ASSERT(myAppInput.IsEmpty());
			myState = CONNECTING;
		}
		void Shutdown() {}
		bool SetHostName(const char* aName) { myName = aName; return true; }
		std::string GetHostName() const { return myName; }

		void AppendNetInputCopy(const void* aData, uint64_t aSize) { myNetInput.WriteCopy(aData, aSize); }
		void AppendNetInputRef(Buffer::Ptr&& aHead) { myNetInput.WriteRef(std::move(aHead)); }
		uint64_t PopNetOutput(Buffer::Ptr& aOutHead)
		{
			PrivUpdate();
			uint64_t res = myNetOutput.GetReadSize();
			aOutHead = myNetOutput.PopData();
			return res;
		}
		void AppendAppInputCopy(const void* aData, uint64_t aSize)
		{
			PrivUpdate();
			if (myState == NEW)
				myNetOutput.WriteCopy(aData, aSize);
			else if (myState == CONNECTING || (myState == CONNECTED && !myAppInput.IsEmpty()))
				myAppInput.WriteCopy(aData, aSize);
			else if (myState == CONNECTED)
				PrivEncrypt(aData, aSize);
		}
		uint64_t PopAppOutput(Buffer::Ptr& aOutHead)
		{
			if (!PrivUpdate())
			{
				if (myState == NEW)
				{
					uint64_t res = myNetInput.GetReadSize();
					aOutHead = myNetInput.PopData();
					return res;
				}
				return 0;
			}
			uint8_t b[4];
			BufferStream out;
			while (myState == CONNECTED && myNetInput.GetReadSize() > 0)
			{
				myNetInput.PeekData(b, 1);
				int n = b[0] - 0x80;
				if (n < 1 || n > 3)
				{
					PrivFail();
					return 0;
				}
				if (myNetInput.GetReadSize() < 1 + (uint64_t)n)
					break;
				myNetInput.ReadData(b, 1 + n);
				for (int i = 1; i <= n; ++i)
					b[i] ^= 0x5a;
				out.WriteCopy(b + 1, n);
			}
			uint64_t res = out.GetReadSize();
			aOutHead = out.PopData();
			return res;
		}
		bool HasError() const { return myError != 0; }
		bool IsConnected() const { return myState == CONNECTED; }
		bool IsClosed() const { return myState == CLOSED; }
		bool IsClosingOrClosed() const { return myState == CLOSED; }
		bool IsEncrypted() const { return myState != NEW; }
		uint32_t GetError() const { return myError; }

	private:
		enum { NEW, CONNECTING, CONNECTED, CLOSED };

		// True when can be used for encrypted data, or an attempt to do so must be made.
		bool PrivUpdate()
		{
			if (myState == CONNECTED)
			{
				while (myAppInput.GetReadSize() > 0)
				{
					uint8_t d[3];
					uint64_t n = myAppInput.GetReadSize() < 3 ? myAppInput.GetReadSize() : 3;
					myAppInput.ReadData(d, n);
					PrivEncrypt(d, n);
				}
				return true;
			}
			if (myState != CONNECTING)
				return false;
			if (!myIsServer && myStep == 0)
			{
				myNetOutput.WriteCopy("Cc", 2);
				myStep = 1;
			}
			const char* want = myIsServer ? (myStep == 0 ? "Cc" : "F") : "Sss";
			uint64_t len = strlen(want);
			uint64_t have = myNetInput.GetReadSize();
			if (have > len)
				have = len;
			char b[4];
			myNetInput.PeekData(b, have);
			if (memcmp(b, want, have) != 0)
			{
				PrivFail();
				return false;
			}
			if (have < len)
				return true;
			myNetInput.SkipData(len);
			if (myIsServer && myStep == 0)
			{
				myStep = 1;
				myNetOutput.WriteCopy("Sss", 3);
				return PrivUpdate();
			}
			if (!myIsServer)
				myNetOutput.WriteCopy("F", 1);
			myState = CONNECTED;
			return true;
		}
		void PrivEncrypt(const void* aData, uint64_t aSize)
		{
			const uint8_t* d = (const uint8_t*)aData;
			while (aSize > 0)
			{
				uint8_t b[4];
				uint64_t n = aSize < 3 ? aSize : 3;
				b[0] = (uint8_t)(0x80 + n);
				for (uint64_t i = 0; i < n; ++i)
					b[1 + i] = d[i] ^ 0x5a;
				myNetOutput.WriteCopy(b, 1 + n);
				d += n;
				aSize -= n;
			}
		}
		void PrivFail()
		{
			myError = 1;
			myState = CLOSED;
		}

		const bool myIsServer;
		int myState = NEW;
		int myStep = 0;
		uint32_t myError = 0;
		std::string myName;
		BufferStream myNetInput, myNetOutput, myAppInput;
	};

}
}
